// B09: a result depends on statement, options and contents of the catalog alone.
#include "analyze.h"

#include <locale>

namespace sim {
namespace {

constexpr char const* id = "B09";

enum : long { v_clone = 1, v_copy_options = 2, v_rebuild = 4, v_analyzer = 8, v_garbage = 16, v_move_unit = 32, v_assign_options = 64, v_detour = 128, v_statement_clone = 256, v_order = 512, v_all = 1023 };

/// the statement in another memory
void change(source& src, op const& o, long v) {
    auto n = static_cast<std::size_t>(o.num(a_statement));
    auto again = [&] { auto& l = src.unit->statements(); src.statement = l[n < l.size() ? n : 0].get(); };
    if (v & v_clone) {
        rt::armed x {};
        ast::compilation_unit c { ::takatori::util::clone_tag, *src.unit };
        src.unit.emplace(std::move(c));
        again();
    }
    if (v & v_statement_clone) {
        rt::armed x {};
        for (auto& st : src.unit->statements()) { std::unique_ptr<ast::statement::statement> c { ::takatori::util::clone_unique(*st) }; st = std::move(c); }
        again();
    }
    if (v & v_move_unit) {
        rt::armed x {};
        auto moved = std::make_unique<ast::compilation_unit>(std::move(*src.unit));
        src.unit.emplace(std::move(*moved));
        again();
    }
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    // numbers in messages follow the locale
    bool foreign = s.get("locale") != 0;
    std::vector<std::function<void()>> bodies {};
    for (std::size_t t = 0; t < s.threads.size(); ++t) bodies.emplace_back([&s, &e, t, foreign] {
        auto wp = std::make_unique<world>();
        auto a = std::make_unique<analyzer::sql_analyzer>();
        std::vector<void*> garbage {};
        for (std::size_t i = 0; i < s.threads[t].size(); ++i) {
            auto&& o = s.threads[t][i];
            if (!parses(e[t][i])) continue;
            auto* f = s.fault_of(static_cast<int>(t), static_cast<int>(i), "vary");
            long v = f ? f->arg : 0;
            if (v & v_rebuild) wp->become(0);
            bool order = (v & v_order) != 0;
            wp->arrange(order ? static_cast<u64>(f->at) + 1 : 0);
            auto src = parse_source(o);
            change(src, o, v);
            auto options = make_options(*wp, o);
            if (v & v_copy_options) { rt::armed x {}; auto c = std::make_unique<analyzer::sql_analyzer_options>(options); options = std::move(*c); }
            if (v & v_assign_options) { auto other = make_options(*wp, make_analyze("", { ~o.num(a_flags), 3, 1, 0, 0, 1, 1, 0 })); rt::armed x {}; other = options; options = other; }
            if (v & v_analyzer) { rt::armed x {}; a = std::make_unique<analyzer::sql_analyzer>(); }
            if (v & v_garbage) {
                rt::prng g { static_cast<u64>(f->at) };
                rt::armed x {};
                for (int k = 0; k < 60; ++k) garbage.push_back(::operator new(16 + g.below(300)));
                for (std::size_t k = 0; k < garbage.size();) if (g.chance(1, 2)) { ::operator delete(garbage[k]); garbage[k] = garbage.back(); garbage.pop_back(); } else ++k;
            }
            if (v & v_detour) {
                // somebody else does something else meanwhile
                rt::armed x {};
                analyzer::sql_analyzer b {};
                auto opposite = make_options(*wp, make_analyze("", { ~o.num(a_flags), 3, 1, 0, 1, 1, 2, 0 }));
                auto r = call(b, opposite, src, *wp, o);
            }
            lookups() = {};
            rt::armed x {};
            auto r = call(*a, options, src, *wp, o);
            rt::disarmed d {};
            count_result(r);
            expect_same("wrong-result", "the result in another environment (" + std::to_string(v) + ")" + where(o), e[t][i].parts[foreign || order ? 1 : 0], foreign || order ? canon_brief(r) : canon_full(r));
        }
        rt::armed x {};
        for (auto* g : garbage) ::operator delete(g);
        a.reset();
    });
    if (bodies.size() == 1) rt::run_single(bodies[0], 65536);
    else rt::run_threads(std::move(bodies), s.switches, true, 16384, 400000000ULL);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.cfg["locale"] = r.chance(1, 2);
    s.threads.resize(r.chance(1, 6) ? 2 : 1);
    for (std::size_t t = 0; t < s.threads.size(); ++t) for (auto n = r.range(1, thorough ? 8 : 5), i = 0L; i < n; ++i) {
        op o = i > 0 && r.chance(1, 3) ? r.pick(s.threads[t]) : parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 60)));
        s.faults.push_back({ static_cast<int>(t), static_cast<int>(i), "vary", static_cast<long>(r.below(1000000)), 1, static_cast<long>(r.next() & static_cast<u64>(v_all)) & static_cast<long>(r.next()) });
        s.threads[t].push_back(std::move(o));
    }
    if (s.threads.size() > 1) random_switches(r, s, orc, 6);
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 1800, 200000,
    "A run analyses 1 to 5 statements (sometimes in two threads) under another locale, heap layout, fill and reuse than the reference, from cloned or moved syntax trees, with copied or assigned options, a rebuilt catalog of equal contents, overloads of functions told in another order, a used or new analyzer, garbage on the heap, or right after another analyzer worked on the same tree with opposite options." };
registrar const reg { &p };

} // namespace
} // namespace sim
