// A06: syntax trees are values.
#include "ast_history.h"

#include <algorithm>
#include <unordered_set>

namespace sim {
namespace {

constexpr char const* id = "A06";
constexpr std::size_t slots = 6;

struct state {
    unit_ptr tree[slots] {};
    form model[slots] {};
    std::string origin[slots] {};
};

std::string brief(std::string const& s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
/// both, around the first difference
std::string two(std::string const& a, std::string const& b) {
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    i = i > 300 ? i - 300 : 0;
    return "\n  left:  " + std::string(i ? "..." : "") + brief(a.substr(std::min(i, a.size()))) + "\n  right: " + std::string(i ? "..." : "") + brief(b.substr(std::min(i, b.size())));
}

void check_slot(state& st, std::size_t i, char const* after) {
    if (!st.tree[i]) return;
    auto f = form_of(*st.tree[i]);
    if (f == st.model[i]) return;
    expect_same("interference", std::string { "a syntax tree changed although nothing was done to it (" } + after + ")", st.model[i].full, f.full);
}

void compare_trees(state& st, std::size_t i, std::size_t j) {
    auto const& a = *st.tree[i];
    auto const& b = *st.tree[j];
    bool expected = st.model[i].value == st.model[j].value;
    bool r[4];
    {
        rt::armed x {};
        r[0] = a == b; r[1] = b == a; r[2] = a != b; r[3] = b != a;
    }
    rt::count(expected ? c_equal_true : c_equal_false);
    if (r[0] != expected || r[1] != expected || r[2] == expected || r[3] == expected) {
        fail("equality", std::string { "operator== of syntax trees with " } + (expected ? "equal" : "different") + " contents is " + (r[0] ? "true" : "false") + " (swapped: " + (r[1] ? "true" : "false")
            + "), operator!= " + (r[2] ? "true" : "false") + (i == j ? " (the same object)" : "") + two(st.model[i].value, st.model[j].value));
    }
}

void compare_children(state& st, std::size_t i, std::size_t j, u64 salt) {
    auto collect = [&](std::size_t k) {
        std::vector<std::pair<void*, child_ops const*>> out {};
        for (auto&& s : st.tree[k]->statements()) { auto v = children(*s); out.insert(out.end(), v.begin(), v.end()); }
        return out;
    };
    auto a = collect(i), b = collect(j);
    if (a.empty() || b.empty()) return;
    for (std::size_t n = 0; n < 6; ++n) {
        auto&& [pa, oa] = a[(salt + n * 7) % a.size()];
        std::vector<void*> same {};
        for (auto&& [pb, ob] : b) if (ob == oa) same.push_back(pb);
        if (same.empty()) continue;
        auto* pb = same[(salt / 8 + n * 5) % same.size()];
        auto da = dump(oa->node(pa), regions::none), db = dump(oa->node(pb), regions::none);
        bool expected = da == db, eq = false, ne = false;
        {
            rt::armed x {};
            eq = oa->eq(pa, pb); ne = oa->ne(pa, pb);
        }
        rt::count(expected ? c_equal_true : c_equal_false);
        if (eq != expected || ne == expected) fail("equality", std::string { "operator== of two " } + oa->type + " with " + (expected ? "equal" : "different") + " contents is " + (eq ? "true" : "false") + ", operator!= " + (ne ? "true" : "false") + two(da, db));
    }
}

void disjoint(state& st, std::size_t i, std::size_t j) {
    auto a = addresses(*st.tree[i]);
    std::unordered_set<void const*> set { a.begin(), a.end() };
    if (set.size() != a.size()) fail("sharing", "two parts of one syntax tree are the same object");
    for (auto* p : addresses(*st.tree[j])) if (set.count(p)) fail("sharing", "a syntax tree and its copy share an object");
}

void execute_all(scenario const& s) {
    apply_environment(s);
    if (s.threads.empty()) return;
    auto start = rt::live_armed_blocks();
    {
        state st {};
        for (auto&& o : s.threads[0]) {
            auto i = static_cast<std::size_t>(o.num(0)) % slots, j = static_cast<std::size_t>(o.num(1)) % slots;
            auto salt = static_cast<u64>(o.num(2)), place = static_cast<u64>(o.num(3));
            auto const& k = o.kind;
            auto set = [&](std::size_t x, unit_ptr t) { { rt::armed a {}; st.tree[x] = std::move(t); } st.model[x] = st.tree[x] ? form_of(*st.tree[x]) : form {}; };
            if (k == "parse") {
                set(i, parse_unit(o.str(0)));
                if (st.tree[i]) for (auto&& x : st.tree[i]->statements()) rt::count(c_ast_nodes, count_nodes(*x));
            } else if (!st.tree[i] && k != "drop") {
                continue;
            } else if (k == "copy" && i != j) {
                {
                    rt::armed a {};
                    st.tree[j] = std::make_unique<ast::compilation_unit>(::takatori::util::clone_tag, static_cast<ast::compilation_unit const&>(*st.tree[i]));
                }
                rt::count(c_cloned);
                st.model[j] = st.model[i];
                check_slot(st, j, "the copy differs from its source");
                disjoint(st, i, j);
            } else if (k == "move" && i != j) {
                // the values move; the source may only be destroyed or assigned
                {
                    rt::armed a {};
                    st.tree[j] = std::make_unique<ast::compilation_unit>(::takatori::util::clone_tag, std::move(*st.tree[i]));
                }
                rt::count(c_cloned);
                st.model[j] = st.model[i];
                if (salt % 2 == 0) { rt::armed a {}; st.tree[i].reset(); }
                check_slot(st, j, "the tree was moved");
                if (salt % 2 == 1) { rt::armed a {}; st.tree[i].reset(); }
            } else if (k == "clone") {
                // statement by statement, by the member functions
                std::vector<std::unique_ptr<ast::statement::statement>> v {};
                std::vector<ast::node_region> c {};
                {
                    rt::armed a {};
                    for (auto&& x : st.tree[i]->statements()) {
                        if (salt % 2 == 0) v.emplace_back(std::as_const(*x).clone());
                        else v.emplace_back(std::move(*x).clone());
                    }
                    c = st.tree[i]->comments();
                    auto d = st.tree[i]->document();
                    auto u = std::make_unique<ast::compilation_unit>(std::move(v), std::move(c), std::move(d));
                    if (salt % 2 == 1 || i == j) st.tree[i].reset();
                    st.tree[j] = std::move(u);
                }
                rt::count(c_cloned);
                st.model[j] = st.model[i];
                check_slot(st, j, "the statements were cloned");
                if (i != j && st.tree[i]) disjoint(st, i, j);
            } else if (k == "mutate") {
                if (mutate_unit(*st.tree[i], place, salt)) rt::count(c_mutated);
                st.model[i] = form_of(*st.tree[i]);
            } else if (k == "region") {
                auto& v = st.tree[i]->statements();
                if (!v.empty() && mutate_region(*v[place % v.size()], place / v.size() % 64)) rt::count(c_mutated);
                auto f = form_of(*st.tree[i]);
                st.model[i] = f;
            } else if (k == "graft") {
                auto& v = st.tree[i]->statements();
                if (v.empty() || !st.tree[j] || i == j) continue;
                auto at = place % v.size();
                auto e = dump(*v[at], regions::absolute);
                {
                    rt::armed a {};
                    st.tree[j]->statements().push_back(std::move(v[at]));
                    v.erase(v.begin() + static_cast<std::ptrdiff_t>(at));
                }
                if (dump(*st.tree[j]->statements().back(), regions::absolute) != e) fail("interference", "a statement changed when it moved to another unit");
                st.model[i] = form_of(*st.tree[i]);
                st.model[j] = form_of(*st.tree[j]);
            } else if (k == "compare") {
                if (!st.tree[j]) continue;
                compare_trees(st, i, j);
                compare_children(st, i, j, salt);
                rt::count(c_compared);
            } else if (k == "serialize") {
                std::string a {}, b {};
                { rt::armed x {}; a = serialize(*st.tree[i]); }
                if (st.tree[j]) {
                    { rt::armed x {}; b = serialize(*st.tree[j]); }
                    if ((a == b) != (st.model[i].printed == st.model[j].printed))
                        fail("serialization", std::string { "two syntax trees with " } + (a == b ? "different contents have the same" : "the same contents have different") + " serialized form\n  left:  " + brief(st.model[i].printed) + "\n  right: " + brief(st.model[j].printed) + two(a, b));
                }
                rt::count(c_events);
            } else if (k == "build") {
                std::vector<std::pair<void*, build_ops const*>> objects {};
                for (auto&& x : st.tree[i]->statements()) { auto v = buildable(*x); objects.insert(objects.end(), v.begin(), v.end()); }
                for (std::size_t n = 0; n < 8 && !objects.empty(); ++n) {
                    auto&& [p, b] = objects[(place + n * 7) % objects.size()];
                    for (std::size_t c = 0, m = b->count(p); c < m; ++c) {
                        auto problem = b->build(p, c);
                        rt::count(c_built);
                        if (!problem.empty()) fail("construction", problem);
                    }
                }
            } else if (k == "print") {
                auto a = print(*st.tree[i]);
                if (st.tree[j]) {
                    auto b = print(*st.tree[j]);
                    if ((a == b) != (st.model[i].printed == st.model[j].printed))
                        fail("serialization", std::string { "two syntax trees with " } + (a == b ? "different contents have the same" : "the same contents have different") + " printed form\n  left:  " + brief(st.model[i].printed) + "\n  right: " + brief(st.model[j].printed) + two(a, b));
                }
            } else if (k == "drop") {
                set(i, nullptr);
            }
            for (std::size_t x = 0; x < slots; ++x) check_slot(st, x, k.c_str());
        }
        rt::armed a {};
        for (auto&& t : st.tree) t.reset();
    }
    rt::count(c_leak_checked);
    if (rt::live_armed_blocks() != start) fail("leak", "blocks remain allocated after every syntax tree was destroyed\n" + rt::describe_live(4));
    rt::check_heap();
}

void execute(scenario const& s, expectations const&) { rt::run_single([&] { execute_all(s); }); }

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    auto& t = s.threads[0];
    auto salt = [&] { return static_cast<long>(r.below(1U << 30U)); };
    auto slot = [&] { return r.range(0, slots - 1); };
    auto n = r.range(1, 2);
    for (long i = 0; i < n; ++i) t.push_back({ "parse", { i }, { random_program(r, static_cast<std::size_t>(r.range(3, 60)), static_cast<std::size_t>(r.chance(1, 3) ? r.range(2, 4) : 1)) } });
    // a copy with a single difference is compared at once
    for (auto k = r.range(6, thorough ? 40 : 20); k > 0; --k) {
        auto i = slot(), j = slot();
        switch (r.below(17)) {
            case 0: case 1: t.push_back({ "copy", { i, j, salt() }, {} }); break;
            case 2: t.push_back({ "move", { i, j, salt() }, {} }); break;
            case 3: t.push_back({ "clone", { i, j, salt() }, {} }); break;
            case 4: case 5: case 6: case 7: case 8: case 9:
                // slots hold something most of the time after the copies
                i = r.range(0, n - 1); j = r.range(n, slots - 1);
                t.push_back({ "copy", { i, j }, {} });
                for (auto m = r.range(1, 3); m > 0; --m) {
                    t.push_back({ r.chance(1, 12) ? "region" : "mutate", { j, j, salt(), salt() }, {} });
                    t.push_back({ "compare", { i, j, salt() }, {} });
                    t.push_back({ "serialize", { i, j }, {} });
                }
                if (r.chance(1, 3)) t.push_back({ "print", { i, j }, {} });
                break;
            case 10: t.push_back({ "mutate", { i, i, salt(), salt() }, {} }); break;
            case 11: t.push_back({ "graft", { i, j, salt(), salt() }, {} }); break;
            case 12: t.push_back({ "compare", { i, r.chance(1, 3) ? i : j, salt() }, {} }); break;
            case 13: t.push_back({ "serialize", { i, j }, {} }); break;
            case 15: t.push_back({ "build", { i, i, salt(), salt() }, {} }); break;
            case 14: t.push_back({ "print", { i, j }, {} }); break;
            default: t.push_back({ "drop", { i }, {} }); break;
        }
    }
}

bool needs(op const&) { return false; }
void solo(op const&) {}

property const p { id, "", generate, execute, solo, needs, 4000, 400000,
    "A run is a history of up to 60 operations (parse, copy, move, clone, mutate one place, graft, compare, serialize, print, destroy) over six syntax trees, checked after every operation against canonical forms taken through the accessors." };
registrar const reg { &p };

} // namespace
} // namespace sim
