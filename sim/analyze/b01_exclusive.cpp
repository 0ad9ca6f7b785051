// B01: one analyzer works on one statement at a time, and refuses others meanwhile.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B01";

/// what is known about a call when it is over
struct call_record {
    int thread { 0 };
    int index { 0 };
    bool inner { false };
    u64 begin { 0 }, end { 0 };            // around the call
    u64 first { 0 }, last { 0 };           // certainly in progress
    enum { accepted, refused, failed } outcome { accepted };
    [[nodiscard]] std::string str() const { return std::string { inner ? "re-entrant call" : "call " + std::to_string(index) } + " of thread " + std::to_string(thread) + " [" + std::to_string(begin) + "," + std::to_string(end) + "]"; }
};

struct history {
    std::vector<call_record> calls {};
    std::vector<std::vector<source>> sources {}, inner {};
};

void one(scenario const& s, measure const& m, op const& o, int t, int i, analyzer::sql_analyzer& a, world const& w, analyzer::sql_analyzer_options const& options, history& h) {
    auto&& src = h.sources[static_cast<std::size_t>(t)][static_cast<std::size_t>(i)];
    auto&& again = h.inner[static_cast<std::size_t>(t)][static_cast<std::size_t>(i)];
    auto text = " (call " + std::to_string(i) + " of thread " + std::to_string(t) + ")" + where(o);
    auto& l = lookups();
    l = {};
    rt::alloc_fault af {};
    bool catalog_fault = false;
    for (auto* f : s.faults_of(t, i)) {
        if (f->kind == "alloc") { af.at = f->at; af.len = f->len; }
        if (f->kind == "catalog") { l.entries.push_back({ f->at, f->len, static_cast<lookup_action>(f->arg) }); catalog_fault = true; }
        if (f->kind == "reentry" && again.statement) {
            lookup_plan::entry e { f->at, f->len, lookup_action::call };
            auto counted = f->arg;
            e.call = [&, t, i, counted] {
                rt::count(c_fault_reentry);
                auto saved = lookups();
                call_record c {};
                c.thread = t; c.index = i; c.inner = true;
                c.begin = rt::now();
                // the inner call is refused at once: no lookup of its own
                lookups() = {};
                bool refused = false;
                rt::exempt_allocs(true);
                try {
                    rt::armed x {};
                    auto r = counted == 0 ? call(a, options, again, w, o) : a(options, *again.statement, {}, {}, {}, {});
                } catch (std::bad_alloc const&) {
                    throw;
                } catch (std::exception const&) {
                    refused = true;
                }
                rt::exempt_allocs(false);
                c.end = rt::now();
                lookups() = saved;
                if (!refused) fail("accepted-reentry", "an analyzer accepted a statement while it was working on another one, from inside of a catalog lookup" + where(o));
                rt::count(c_rejected);
                c.outcome = call_record::refused;
                h.calls.push_back(c);
            };
            l.entries.push_back(std::move(e));
        }
    }
    call_record c {};
    c.thread = t; c.index = i;
    c.begin = rt::now();
    rt::set_alloc_fault(af);
    try {
        rt::armed x {};
        auto r = call(a, options, src, w, o);
        rt::disarmed d {};
        rt::set_alloc_fault({});
        c.end = rt::now();
        count_result(r);
        expect_same("wrong-result", "the result of an accepted call" + text, m.parts[af.at < 0 ? 0 : 1], af.at < 0 ? canon_full(r) : canon_brief(r));
    } catch (std::bad_alloc const&) {
        rt::set_alloc_fault({});
        c.end = rt::now();
        if (af.at < 0 && !catalog_fault) fail("exception", "bad_alloc without a fault" + text);
        c.outcome = call_record::failed;
    } catch (injected_error const&) {
        rt::set_alloc_fault({});
        c.end = rt::now();
        c.outcome = call_record::failed;
    } catch (std::exception const& e) {
        rt::set_alloc_fault({});
        c.end = rt::now();
        (void) e;
        rt::count(c_rejected);
        c.outcome = call_record::refused;
        if (l.seen != 0) fail("exception", std::string { "a call which was in progress raised: " } + e.what() + text);
    }
    c.first = l.first_at; c.last = l.last_at;
    l = {};
    h.calls.push_back(c);
}

void check(history const& h) {
    for (auto&& x : h.calls) {
        bool busy = false;
        for (auto&& y : h.calls) {
            if (std::addressof(x) == std::addressof(y)) continue;
            bool overlap = x.begin <= y.end && y.begin <= x.end;
            if (overlap && y.outcome != call_record::refused) busy = true;
            // both were certainly at work
            if (x.outcome != call_record::refused && y.outcome != call_record::refused && x.first != 0 && y.first != 0 && x.first <= y.last && y.first <= x.last && std::addressof(x) < std::addressof(y))
                fail("not-exclusive", "an analyzer worked on two statements at the same time: " + x.str() + " and " + y.str());
        }
        if (x.outcome == call_record::refused && !busy) fail("refused", "an idle analyzer refused a statement: " + x.str());
    }
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    auto n = s.threads.size();
    world w {};
    history h {};
    std::vector<std::vector<analyzer::sql_analyzer_options>> options(n);
    std::map<std::string, source> shared {};
    for (std::size_t t = 0; t < n; ++t) {
        h.sources.emplace_back();
        h.inner.emplace_back();
        for (auto&& o : s.threads[t]) {
            options[t].push_back(make_options(w, o));
            h.sources[t].push_back(parse_source(o));
            auto in = o;
            in.s[0] = o.str(1);
            h.inner[t].push_back(parse_source(in));
        }
    }
    auto a = std::make_unique<analyzer::sql_analyzer>();
    std::vector<std::function<void()>> bodies {};
    std::vector<int> inside(n, 0);
    for (std::size_t t = 0; t < n; ++t) bodies.emplace_back([&, t] {
        for (std::size_t i = 0; i < s.threads[t].size(); ++i) {
            if (!parses(e[t][i])) continue;
            for (std::size_t k = 0; k < n; ++k) if (inside[k]) rt::count(c_overlap);
            inside[t] = 1;
            one(s, e[t][i], s.threads[t][i], static_cast<int>(t), static_cast<int>(i), *a, w, options[t][i], h);
            inside[t] = 0;
        }
    });
    rt::run_threads(std::move(bodies), s.switches, true, 16384, 400000000ULL);
    check(h);
    // afterwards the analyzer is idle
    bool done = false;
    for (std::size_t t = 0; t < n && !done; ++t) for (std::size_t i = 0; i < s.threads[t].size() && !done; ++i) {
        if (!parses(e[t][i])) continue;
        done = true;
        rt::run_single([&] {
            lookups() = {};
            auto&& o = s.threads[t][i];
            rt::armed x {};
            try {
                auto r = call(*a, options[t][i], h.sources[t][i], w, o);
                rt::disarmed d {};
                rt::count(c_reused);
                expect_same("wrong-result", "the result of a call after all others are over" + where(o), e[t][i].parts[0], canon_full(r));
            } catch (std::exception const& ex) {
                rt::disarmed d {};
                fail("refused", std::string { "an idle analyzer refused a statement after all others are over: " } + ex.what() + where(o));
            }
        }, 16384);
    }
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    auto n = static_cast<std::size_t>(r.chance(1, 4) ? 1 : r.chance(3, 4) ? 2 : thorough && r.chance(1, 3) ? 4 : 3);
    s.threads.resize(n);
    for (std::size_t t = 0; t < n; ++t) for (auto k = r.range(1, 3); k > 0; --k) {
        auto o = parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 40)));
        if (r.chance(1, 3) && t > 0 && !s.threads[0].empty()) o = s.threads[0][r.below(s.threads[0].size())];
        if (o.s.size() < 2) o.s.push_back(r.chance(1, 3) ? o.str(0) : random_statement(r, 20));
        s.threads[t].push_back(o);
    }
    if (n > 1) random_switches(r, s, orc, 10);
    for (std::size_t t = 0; t < n; ++t) for (std::size_t i = 0; i < s.threads[t].size(); ++i) {
        auto&& m = orc.solo(id, s.threads[t][i]);
        int a = static_cast<int>(t), b = static_cast<int>(i);
        if (m.events > 0 && r.chance(1, n == 1 ? 1 : 4)) s.faults.push_back({ a, b, "reentry", static_cast<long>(r.below(m.events)), r.chance(1, 4) ? 3 : 1, r.range(0, 1) });
        if (m.allocs > 0 && r.chance(1, 8)) s.faults.push_back({ a, b, "alloc", static_cast<long>(r.below(m.allocs)), r.chance(1, 3) ? 100000 : 1, 0 });
        else if (m.events > 0 && r.chance(1, 8)) s.faults.push_back({ a, b, "catalog", static_cast<long>(r.below(m.events)), 1, r.range(1, 2) });
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 1500, 200000,
    "A run lets 1 to 4 threads give 1 to 3 statements each to one analyzer, the scheduler switching at points drawn from the distinct program points; catalog lookups call the analyzer again, and in some calls memory runs out or the catalog throws." };
registrar const reg { &p };

} // namespace
} // namespace sim
