// A07: memory runs out in an operation on syntax trees.
#include "ast_history.h"

#include <new>
#include <sstream>

namespace sim {
namespace {

constexpr char const* id = "A07";

/// what one operation did
struct effect {
    std::string result {};       // canonical form of what it produced
    bool threw { false };
    bool partial { false };      // the result may be shorter (a stream or receiver which failed)
};

/// executes the operation; allocations of the code under test happen armed
effect perform(op const& o, unit_ptr& u, unit_ptr& other, rt::alloc_fault const& af) {
    effect e {};
    auto place = static_cast<u64>(o.num(0)), salt = static_cast<u64>(o.num(1));
    unit_ptr made {};
    std::vector<std::unique_ptr<ast::statement::statement>> list {};
    bool eq = false;
    rt::set_alloc_fault(af);
    try {
        if (o.kind == "copy" || o.kind == "move") {
            {
                rt::armed a {};
                if (o.kind == "copy") made = std::make_unique<ast::compilation_unit>(::takatori::util::clone_tag, static_cast<ast::compilation_unit const&>(*u));
                else made = std::make_unique<ast::compilation_unit>(::takatori::util::clone_tag, std::move(*u));
            }
            rt::set_alloc_fault({});
            e.result = dump(*made, regions::absolute);
        } else if (o.kind == "clone" || o.kind == "moveclone") {
            {
                rt::armed a {};
                for (auto&& x : u->statements()) {
                    std::unique_ptr<ast::statement::statement> c { o.kind == "clone" ? std::as_const(*x).clone() : std::move(*x).clone() };
                    list.push_back(std::move(c));
                }
            }
            rt::set_alloc_fault({});
            for (auto&& x : list) e.result += dump(*x, regions::absolute) + "\n";
        } else if (o.kind == "edit") {
            // arms itself
            mutate_unit(*u, place, salt);
            rt::set_alloc_fault({});
            e.result = dump(*u, regions::absolute);
        } else if (o.kind == "build") {
            // arms itself
            std::vector<std::pair<void*, build_ops const*>> objects {};
            for (auto&& x : u->statements()) { auto v = buildable(*x); objects.insert(objects.end(), v.begin(), v.end()); }
            for (std::size_t n = 0; n < 6 && !objects.empty() && e.result.empty(); ++n) {
                auto&& [p, b] = objects[(place + n * 7) % objects.size()];
                for (std::size_t k = 0, m = b->count(p); k < m && e.result.empty(); ++k) e.result = b->build(p, k);
            }
            rt::set_alloc_fault({});
        } else if (o.kind == "compare") {
            { rt::armed a {}; eq = *u == *other; }
            e.result = eq ? "equal" : "different";
        } else if (o.kind == "serialize") {
            recorder r {};
            try { rt::armed a {}; r << *u; }
            catch (std::bad_alloc const&) {
                rt::disarmed d {};
                rt::set_alloc_fault({});
                if (!r.open.empty()) fail("unbalanced", "a structure was left open when the serialization failed: " + r.text.substr(0, 2000));
                throw;
            }
            rt::set_alloc_fault({});
            e.result = r.text;
        } else if (o.kind == "print") {
            std::ostringstream s {};
            try { rt::armed a {}; s << *u; }
            catch (std::bad_alloc const&) { rt::set_alloc_fault({}); e.threw = true; }
            rt::set_alloc_fault({});
            e.partial = e.threw || !s.good();
            e.result = s.str();
        }
    } catch (std::bad_alloc const&) {
        e.threw = true;
    }
    rt::set_alloc_fault({});
    rt::armed a {};
    made.reset();
    list.clear();
    list.shrink_to_fit();
    return e;
}

void execute_all(scenario const& s, expectations const& x) {
    for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
        auto&& o = s.threads[0][i];
        auto what = o.kind + "\n  text: " + escape(o.str(0), 800);
        unit_ptr u = parse_unit(o.str(0), false), other = parse_unit(o.str(0), false);
        if (!u || !other) continue;
        auto model = dump(*u, regions::absolute);
        auto start = rt::live_armed_blocks();
        rt::alloc_fault af {};
        if (auto* f = s.fault_of(0, static_cast<int>(i), "alloc")) { af.at = f->at; af.len = f->len; }
        auto before = rt::fired_allocs();
        auto e = perform(o, u, other, af);
        bool hit = rt::fired_allocs() != before;
        if (e.threw) rt::count(c_threw);
        if (e.threw && !hit) fail("exception", "bad_alloc without a fault in " + what);
        bool reads = o.kind == "copy" || o.kind == "clone" || o.kind == "compare" || o.kind == "serialize" || o.kind == "print" || o.kind == "build";
        if (!e.threw && !e.partial) expect_same("wrong-result", "the result of " + what, x[0][i].parts[0], e.result);
        if (reads) {
            expect_same("changed", "the source of a failed " + what, model, dump(*u, regions::absolute));
            // it works once memory is available
            auto again = perform(o, u, other, {});
            expect_same("wrong-result", "the second result of " + what, x[0][i].parts[0], again.result);
            rt::count(c_reused);
        } else if (o.kind == "edit") {
            // whatever state it is in: it can be used
            auto now = dump(*u, regions::absolute);
            unit_ptr copy {};
            bool eq = false;
            { rt::armed a {}; copy = std::make_unique<ast::compilation_unit>(::takatori::util::clone_tag, static_cast<ast::compilation_unit const&>(*u)); eq = *copy == *u; }
            expect_same("changed", "the copy of a tree after a failed " + what, now, dump(*copy, regions::absolute));
            if (!eq) fail("changed", "a tree differs from its copy after a failed " + what);
            rt::armed a {};
            copy.reset();
        }
        { rt::armed a {}; u.reset(); other.reset(); }
        rt::count(c_leak_checked);
        if (rt::live_armed_blocks() != start) fail("leak", "blocks remain allocated after a failed " + what + "\n" + rt::describe_live(4));
    }
    rt::check_heap();
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] { execute_all(s, e); }, 65536);
}

void solo(op const& o) {
    std::string out {};
    rt::run_single([&] {
        unit_ptr u = parse_unit(o.str(0), false), other = parse_unit(o.str(0), false);
        if (!u || !other) return;
        out = perform(o, u, other, {}).result;
        // memory of the parser's is released outside of the measurement
    }, 65536);
    rt::output(out);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool) {
    random_heap(r, s);
    s.threads.resize(1);
    static char const* const kinds[] { "copy", "copy", "clone", "move", "moveclone", "edit", "edit", "edit", "compare", "serialize", "print", "build", "build" };
    for (auto k = r.range(1, 3); k > 0; --k) {
        op o { kinds[r.below(sizeof kinds / sizeof *kinds)], { static_cast<long>(r.below(1U << 30U)), static_cast<long>(r.below(1U << 30U)) },
            { random_program(r, static_cast<std::size_t>(r.range(3, 60)), static_cast<std::size_t>(r.chance(1, 3) ? r.range(2, 3) : 1)) } };
        auto&& m = orc.solo(id, o);
        auto i = static_cast<int>(s.threads[0].size());
        if (m.allocs > 0) {
            fault f { 0, i, "alloc", 0, 1, 0 };
            if (!m.alloc_points.empty() && r.chance(2, 3)) f.at = static_cast<long>(m.alloc_points[r.below(m.alloc_points.size())]);
            else f.at = static_cast<long>(r.below(m.allocs));
            if (r.chance(1, 3)) f.len = r.chance(1, 2) ? 1000000 : r.range(2, 5);
            s.faults.push_back(f);
        } else if (o.kind == "compare" || o.kind == "edit") {
            s.faults.push_back({ 0, i, "alloc", 0, 1000000, 0 });
        }
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const&) { return true; }

property const p { id, "", generate, execute, solo, needs, 4000, 400000,
    "A run performs 1 to 3 operations (copy, move, clone, edit of a list or child, build of a node by a constructor, compare, serialize, print) on freshly parsed trees; in each the k-th allocation, or all from the k-th on, fails." };
registrar const reg { &p };

} // namespace
} // namespace sim
