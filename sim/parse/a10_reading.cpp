// A10: the tree says exactly what the text says, and where it says it.
#include "common.h"
#include "reading.h"

namespace sim {
namespace {

constexpr char const* id = "A10";

/// "read": s = tokens, n = { spacing, render seed, whether the parser of the last text is used again }
rendered make_text(op const& o) {
    tokens t {};
    for (auto&& x : o.s) { auto one = split(x); t.push_back({ x, one.size() == 1 ? one[0].kind : 'x' }); }
    rt::prng r { static_cast<u64>(o.num(1)) };
    return render(t, static_cast<spacing>(o.num(0)), r);
}

void solo(op const& o) {
    rt::run_single([&] {
        auto rd = make_text(o);
        auto q = make_parse(rd.text);
        auto doc = make_document(q);
        auto p = make_parser(q);
        rt::armed a {};
        auto r = p(doc);
    }, 65536);
    rt::output("done");
}

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        std::optional<parser::sql_parser> p {};
        int i = 0;
        for (auto&& o : s.threads[0]) {
            auto rd = make_text(o);
            auto q = make_parse(rd.text);
            if (!p || o.num(2) == 0) p.emplace(make_parser(q));
            auto doc = make_document(q);
            std::string problem {};
            rt::alloc_fault af {};
            if (auto* f = s.fault_of(0, i, "alloc")) { af.at = f->at; af.len = f->len; }
            ++i;
            {
                std::optional<parser::sql_parser_result> r {};
                rt::set_alloc_fault(af);
                {
                    rt::armed a {};
                    try { r.emplace((*p)(doc)); } catch (std::bad_alloc const&) {}
                }
                rt::set_alloc_fault({});
                if (!r) { rt::count(c_threw); continue; }
                rt::count(r->has_value() ? c_parse_ok : c_parse_diag);
                if (r->has_value()) problem = read_along(*r->value(), rd);
                if (r->has_value() && problem.empty()) problem = check_result(*r, rd.text, doc.get(), true);
            }
            if (!problem.empty()) fail("reading", problem + "\n  text: " + escape(rd.text, 1500));
        }
    }, 65536);
    rt::check_heap();
}

/// makes another text, which may or may not be a sentence
void rearrange(rt::prng& r, std::vector<std::string>& t) {
    static char const* const more[] { ",", ".", "NOT", "ALL", "DISTINCT", "AS", "NULL", "-", "+", "OUTER", "ONLY", "LATERAL", "RECURSIVE", "(", ")", "ROW", "IF", "NO", "ASC", "x", "1", "?", "'s'", "DEFAULT", "*", "OR", "TRUE", "COLLATE" };
    for (auto k = r.range(1, 3); k > 0 && !t.empty(); --k) {
        auto i = r.below(t.size()), j = r.below(t.size());
        switch (r.below(5)) {
            case 0: t.erase(t.begin() + static_cast<std::ptrdiff_t>(i)); break;
            case 1: std::swap(t[i], t[j]); break;
            case 2: { auto x = t[j]; t.insert(t.begin() + static_cast<std::ptrdiff_t>(i), x); break; }
            case 3: t[i] = t[j]; break;
            default: t.insert(t.begin() + static_cast<std::ptrdiff_t>(i), more[r.below(std::size(more))]);
        }
    }
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    if (r.chance(1, 4)) s.cfg["locale"] = 1;
    s.threads.resize(1);
    for (auto k = r.range(1, thorough ? 6 : 4); k > 0; --k) {
        op o { "read", {}, {} };
        // descriptions belong to definitions
        bool definition = r.chance(1, 10);
        for (int n = 0; n < 40; ++n) {
            o.s.clear();
            for (auto&& t : random_tokens(r, static_cast<std::size_t>(r.chance(1, 10) ? r.range(100, 500) : r.range(2, 80)))) o.s.push_back(t.text);
            if (!definition || std::find_if(o.s.begin(), o.s.end(), [](auto&& x) { return x == "CREATE" || x == "create"; }) != o.s.end()) break;
        }
        if (o.s.empty()) continue;
        bool free = r.chance(1, 4);
        if (free) rearrange(r, o.s);
        o.n = { definition && !free ? 3 : r.range(0, 3), static_cast<long>(r.below(1000000)), r.range(0, 1) };
        if (free && o.n[0] == 1) o.n[0] = 0;
        if (r.chance(1, 8)) {
            fault f { 0, static_cast<int>(s.threads[0].size()), "alloc", 0, 1, 0 };
            f.at = 24 + static_cast<long>(r.below(1 + o.s.size() * (r.chance(1, 2) ? 1 : 3)));
            f.len = r.chance(1, 3) ? 1000000 : static_cast<long>(r.range(1, 3));
            s.faults.push_back(f);
        }
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const&) { return false; }

property const p { id, "", generate, execute, solo, needs, 15000, 400000,
    "A run parses 1 to 6 random sentences of the whole grammar (1 in 4 with tokens dropped, added or exchanged) with new and reused parsers in one process under a random heap policy and locale, 1 in 8 of them while allocations fail, and reads each text which was accepted along its tree.", false, true };
registrar const reg { &p };

} // namespace
} // namespace sim
