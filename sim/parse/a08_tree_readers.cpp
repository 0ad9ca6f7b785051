// A08: threads read one syntax tree.
#include "ast_history.h"

#include <sstream>

namespace sim {
namespace {

constexpr char const* id = "A08";

std::string read(std::string const& kind, ast::compilation_unit const& u, ast::compilation_unit const& other, u64 place) {
    if (kind == "copy") {
        std::string out {};
        unit_ptr c {};
        { rt::armed a {}; c = std::make_unique<ast::compilation_unit>(::takatori::util::clone_tag, u); }
        out = dump(*c, regions::absolute);
        rt::armed a {};
        c.reset();
        return out;
    }
    if (kind == "clone") {
        if (u.statements().empty()) return {};
        auto const& n = *u.statements()[place % u.statements().size()];
        std::unique_ptr<ast::statement::statement> c {};
        { rt::armed a {}; c.reset(n.clone()); }
        auto out = dump(*c, regions::absolute);
        rt::armed a {};
        c.reset();
        return out;
    }
    if (kind == "compare") {
        bool a = false, b = false;
        { rt::armed x {}; a = u == other; b = other != u; }
        return a && !b ? "equal" : "different";
    }
    if (kind == "self") {
        bool a = false;
        { rt::armed x {}; a = u == u; }
        return a ? "equal" : "different";
    }
    if (kind == "serialize") {
        std::string out {};
        recorder r {};
        { rt::armed a {}; r << u; }
        return r.text;
    }
    if (kind == "print") return print(u);
    if (kind == "children") {
        // a child and its copy
        std::string out {};
        for (auto&& s : u.statements()) {
            auto v = children(*s);
            for (std::size_t k = 0; k < 3 && !v.empty(); ++k) {
                auto&& [p, o] = v[(place + k * 5) % v.size()];
                bool e = false;
                { rt::armed a {}; e = o->eq(p, p); }
                std::ostringstream t {};
                auto const& n = o->node(p);
                recorder r {};
                { rt::armed a {}; r << n; }
                out += std::string { o->type } + (e ? " equal " : " different ") + r.text + "\n";
            }
        }
        return out;
    }
    return {};
}

void solo(op const& o) {
    std::string out {};
    rt::run_single([&] {
        auto u = parse_unit(o.str(0), false), other = parse_unit(o.str(0), false);
        if (!u) return;
        if (o.num(1) != 0) mutate_unit(*other, static_cast<u64>(o.num(2)), static_cast<u64>(o.num(1)));
        out = read(o.kind, *u, *other, static_cast<u64>(o.num(0)));
    }, 65536);
    rt::output(out);
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    auto n = s.threads.size();
    op const* first = nullptr;
    for (auto&& t : s.threads) if (!t.empty() && !first) first = &t[0];
    if (!first) return;
    unit_ptr u {}, other {};
    rt::run_single([&] {
        u = parse_unit(first->str(0), false);
        other = parse_unit(first->str(0), false);
        if (other && first->num(1) != 0) mutate_unit(*other, static_cast<u64>(first->num(2)), static_cast<u64>(first->num(1)));
    }, 65536);
    if (!u || !other) return;
    auto model = dump(*u, regions::absolute), model2 = dump(*other, regions::absolute);
    auto live = rt::live_armed_blocks();
    std::vector<std::function<void()>> bodies {};
    std::vector<int> inside(n, 0);
    for (std::size_t t = 0; t < n; ++t) bodies.emplace_back([&, t] {
        for (std::size_t i = 0; i < s.threads[t].size(); ++i) {
            auto&& o = s.threads[t][i];
            for (std::size_t k = 0; k < n; ++k) if (inside[k]) rt::count(c_overlap);
            inside[t] = 1;
            auto out = read(o.kind, *u, *other, static_cast<u64>(o.num(0)));
            inside[t] = 0;
            rt::count(c_compared);
            expect_same("wrong-result", "the result of a concurrent " + o.kind + " of thread " + std::to_string(t) + "\n  text: " + escape(o.str(0), 800), e[t][i].parts[0], out);
        }
    });
    rt::run_threads(std::move(bodies), s.switches, true, 32768, 400000000ULL);
    rt::count(c_leak_checked);
    if (rt::live_armed_blocks() != live) fail("leak", "blocks remain allocated after reading a syntax tree\n" + rt::describe_live(4));
    expect_same("changed", "a syntax tree which was only read", model, dump(*u, regions::absolute));
    expect_same("changed", "a syntax tree which was only read", model2, dump(*other, regions::absolute));
    u.reset();
    other.reset();
    rt::check_heap();
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    auto n = static_cast<std::size_t>(r.chance(2, 3) ? 2 : thorough && r.chance(1, 3) ? 4 : 3);
    s.threads.resize(n);
    auto text = random_program(r, static_cast<std::size_t>(r.range(3, 60)), static_cast<std::size_t>(r.chance(1, 3) ? r.range(2, 3) : 1));
    long change = r.chance(1, 2) ? static_cast<long>(r.below(1U << 30U)) : 0, place = static_cast<long>(r.below(1U << 30U));
    static char const* const kinds[] { "copy", "clone", "compare", "self", "serialize", "print", "children" };
    for (std::size_t t = 0; t < n; ++t) for (auto k = r.range(1, 4); k > 0; --k)
        s.threads[t].push_back({ kinds[r.below(7)], { static_cast<long>(r.below(1000)), change, place }, { text } });
    random_switches(r, s, orc);
}
bool needs(op const&) { return true; }

property const p { id, "", generate, execute, solo, needs, 2500, 250000,
    "A run lets 2 to 4 threads copy, compare, serialize and print one shared syntax tree, the scheduler switching at up to 16 points; a happens-before race detector watches every access." , false };
registrar const reg { &p };

} // namespace
} // namespace sim
