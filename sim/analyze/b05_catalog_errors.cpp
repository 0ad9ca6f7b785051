// B05: an error of the catalog reaches the caller, and nothing else happens.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B05";

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        auto live = rt::live_armed_blocks();
        auto owner = std::make_unique<analyzer::sql_analyzer>();
        auto& a = *owner;
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            if (!parses(e[0][i])) continue;
            auto text = where(o);
            auto src = parse_source(o);
            auto options = make_options(w, o);
            auto f = install_faults(s, 0, static_cast<int>(i));
            bool fault = f.catalog;
            // what the caller sees
            std::string got {};
            long odd = -1;
            try {
                rt::armed x {};
                auto r = call(a, options, src, w, o);
                rt::disarmed d {};
                auto fired = lookups().fired;
                remove_faults();
                count_result(r);
                if (fired != 0) fail("swallowed", "an exception of the catalog did not reach the caller, who got a result instead" + text);
                expect_same("wrong-result", "a result" + text, e[0][i].parts[0], canon_full(r));
                fault = false;
            } catch (injected_error const& x) {
                rt::disarmed d {};
                got = std::string { "injected " } + x.what();
            } catch (std::bad_alloc const& x) {
                rt::disarmed d {};
                got = "bad_alloc";
            } catch (std::invalid_argument const& x) {
                rt::disarmed d {};
                got = std::string { "invalid_argument " } + x.what();
            } catch (odd_error const& x) {
                rt::disarmed d {};
                got = "odd";
                odd = x.id;
            } catch (std::exception const& x) {
                rt::disarmed d {};
                fail("exception", std::string { "the caller got another exception than the catalog raised: " } + x.what() + text);
            }
            if (fault) {
                auto& l = lookups();
                auto at = l.entries.empty() ? 0 : l.entries[0].at;
                auto n = std::to_string(at);
                std::string want = f.first == lookup_action::throw_injected ? "injected catalog " + n : f.first == lookup_action::throw_bad_alloc ? "bad_alloc" : f.first == lookup_action::throw_runtime ? "invalid_argument catalog " + n : "odd";
                if (l.fired != 1) fail("retried", "the catalog was asked again after it raised an exception" + text);
                if (got != want || (got == "odd" && odd != at)) fail("exception", "the caller got '" + got + "' instead of the exception '" + want + "' of the catalog" + text);
                if (l.seen != static_cast<u64>(at) + 1) fail("retried", "the catalog was asked again after it raised an exception" + text);
                rt::count(c_threw);
            }
            remove_faults();
        }
        {
            rt::armed x {};
            owner.reset();
        }
        rt::count(c_leak_checked);
        if (rt::live_armed_blocks() != live) fail("leak", std::string { "blocks remain allocated after an analyzer is gone in which calls raised an exception of the catalog\n" } + rt::describe_live(4));
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    for (auto n = r.range(1, thorough ? 8 : 5), i = 0L; i < n; ++i) {
        op o = i > 0 && r.chance(1, 3) ? s.threads[0].back() : parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 60)));
        auto&& m = orc.solo(id, o);
        if (r.chance(3, 4) && m.events > 0) s.faults.push_back({ 0, static_cast<int>(i), "catalog", static_cast<long>(r.below(m.events)), r.chance(1, 2) ? 1000 : 1, r.range(1, 4) });
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 2500, 300000,
    "A run gives 1 to 5 statements to one analyzer; in most calls one lookup of the catalog (schema, relation, index, sequence, variable, function, aggregate function, host parameter), chosen among all which the statement makes, raises one of four kinds of exception." };
registrar const reg { &p };

} // namespace
} // namespace sim
