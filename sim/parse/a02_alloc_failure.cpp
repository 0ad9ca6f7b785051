// A02: memory runs out at any allocation of a parse.
#include "common.h"

#include <algorithm>
#include <new>

namespace sim {
namespace {

constexpr char const* id = "A02";

void execute_all(scenario const& s, expectations const& e) {
    auto&& ops = s.threads[0];
    if (ops.empty()) return;
    auto start = rt::live_armed_blocks();
    {
        auto p = make_parser(ops[0]);
        for (std::size_t i = 0; i < ops.size(); ++i) {
            auto&& o = ops[i];
            configure(p.options(), o);
            auto text = "\n  text: " + escape(o.str(0), 800);
            auto before = rt::live_armed_blocks();
            {
                auto doc = make_document(o);
                std::string outcome {};
                auto fired = rt::fired_allocs();
                rt::alloc_fault af {};
                if (auto* f = s.fault_of(0, static_cast<int>(i), "alloc")) { af.at = f->at; af.len = f->len; af.min_size = static_cast<std::size_t>(f->arg); }
                {
                    std::optional<parser::sql_parser_result> r {};
                    rt::set_alloc_fault(af);
                    {
                        rt::armed a {};
                        try { r.emplace(p(doc)); }
                        catch (std::bad_alloc const&) { rt::disarmed d {}; outcome = "bad_alloc"; }
                        catch (std::exception const& x) { rt::disarmed d {}; outcome = std::string { "exception " } + x.what(); }
                        catch (...) { rt::disarmed d {}; fail("exception", "a non-standard exception left the parser" + text); }
                    }
                    rt::set_alloc_fault({});
                    bool hit = rt::fired_allocs() != fired;
                    if (!outcome.empty()) {
                        rt::count(c_threw);
                        if (!hit) fail("exception", "the parser threw without any fault: " + outcome + text);
                        if (outcome != "bad_alloc") fail("exception", "exhausted memory was reported as " + outcome + text);
                    } else {
                        expect_same("wrong-result", "the result of a parse in which an allocation failed differs from the fault-free one" + text, hit ? e[0][i].parts[1] : e[0][i].parts[0], hit ? canon_brief(*r) : canon_absolute(*r));
                        auto problem = check_result(*r, o.str(0), doc.get(), true);
                        if (!problem.empty() && problem.find("no message") == std::string::npos) fail("malformed-result", problem + text);
                    }
                    rt::armed a {};
                    r.reset();
                }
                if (doc.use_count() != 1) fail("leak", "the document is still referred to after the failed parse" + text);
            }
            rt::count(c_leak_checked);
            if (rt::live_armed_blocks() != before) fail("leak", std::to_string(rt::live_armed_blocks() - before) + " blocks remain allocated after a parse (" + (s.fault_of(0, static_cast<int>(i), "alloc") ? "with" : "without") + " allocation failure)" + text + "\n" + rt::describe_live(4));
            // the parser is as good as new
            auto doc = make_document(o);
            std::string again {};
            try {
                rt::armed a {};
                auto r = p(doc);
                rt::disarmed d {};
                again = canon_absolute(r);
            } catch (std::exception const& x) { fail("reuse", std::string { "the parser throws after a failed parse: " } + x.what() + text); }
            rt::count(c_reused);
            expect_same("reuse", "the parser answers differently after a failed parse" + text, e[0][i].parts[0], again);
        }
    }
    if (rt::live_armed_blocks() != start) fail("leak", "blocks remain allocated after the parser was destroyed\n" + rt::describe_live(4));
    rt::check_heap();
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool) {
    random_heap(r, s);
    s.threads.resize(1);
    auto n = r.range(1, 2);
    for (long i = 0; i < n; ++i) {
        bool cut = false;
        auto size = static_cast<std::size_t>(r.chance(1, 10) ? r.range(80, 250) : r.range(2, 50));
        auto t = random_sql(r, size);
        if (r.chance(1, 4)) t = damage(r, std::move(t), cut);
        if (r.chance(1, 10)) t = "SELECT '" + std::string(static_cast<std::size_t>(r.range(5000, 40000)), 'x') + "'";   // the scanner's buffer grows
        s.threads[0].push_back(make_parse(std::move(t), { r.chance(1, 4) ? r.range(1, 30) : 0, r.chance(1, 4) ? r.range(1, 10) : 0, r.range(0, 8), r.range(0, 1) }));
    }
    for (long i = 0; i < n; ++i) {
        auto&& m = orc.solo(id, s.threads[0][static_cast<std::size_t>(i)]);
        if (m.allocs == 0) continue;
        fault f { 0, static_cast<int>(i), "alloc", 0, 1, 0 };
        if (!m.alloc_points.empty() && r.chance(2, 3)) f.at = static_cast<long>(m.alloc_points[r.below(m.alloc_points.size())]);
        else f.at = static_cast<long>(r.below(m.allocs));
        if (r.chance(1, 3)) f.len = r.chance(1, 2) ? 1000000 : r.range(2, 5);
        s.faults.push_back(f);
    }
}
void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] { execute_all(s, e); }, 65536);
}
bool needs(op const&) { return true; }

property const p { id, "", generate, execute, solo_parse, needs, 3000, 300000,
    "A run parses 1 or 2 texts with one parser; in each parse the k-th allocation (or all from the k-th on) fails, k drawn from those of the fault-free reference execution, one per program point preferred." };
registrar const reg { &p };

} // namespace
} // namespace sim
