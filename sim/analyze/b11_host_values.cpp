// B11: host values reach the statements which refer to them.
#include "analyze.h"

#include <takatori/type/all.h>
#include <takatori/value/all.h>

#include <algorithm>
#include <sstream>

namespace sim {
namespace {

constexpr char const* id = "B11";

namespace tt = ::takatori::type;
namespace tv = ::takatori::value;
using entry = ::mizugaki::placeholder_entry;

constexpr long values = 12;
char const* const names[] { "a", "b", "A", ":a", ":b", "p_int", ":p_int", "p_str", "1", "2", ":1", "a_name_which_is_too_long_for_the_small_string", "", "h" };
constexpr long name_count = sizeof(names) / sizeof(names[0]);

template<class T, class V> entry make(T t, V v, long how) {
    switch (how) {
        case 0: return entry { std::move(t), std::move(v) };
        case 1: return entry { std::move(v), std::move(t) };
        case 2: return entry { std::shared_ptr<tt::data const> { std::make_shared<T const>(std::move(t)) }, std::shared_ptr<tv::data const> { std::make_shared<V const>(std::move(v)) } };
        default: return entry { std::shared_ptr<tv::data const> { std::make_shared<V const>(std::move(v)) }, std::shared_ptr<tt::data const> { std::make_shared<T const>(std::move(t)) } };
    }
}
entry make(long k, long how) {
    switch (k) {
        case 0: return make(tt::int4 {}, tv::int4 { 1 }, how);
        case 1: return make(tt::int4 {}, tv::int4 { 2 }, how);
        case 2: return make(tt::int8 {}, tv::int8 { -5 }, how);
        case 3: return make(tt::character { tt::varying }, tv::character { "x" }, how);
        case 4: return make(tt::character { tt::varying, 80 }, tv::character { "a text which is too long for the small string, too" }, how);
        case 5: return make(tt::boolean {}, tv::boolean { true }, how);
        case 6: return make(tt::float8 {}, tv::float8 { 1.5 }, how);
        case 7: return make(tt::int4 {}, tv::unknown {}, how);
        case 8: return make(tt::unknown {}, tv::unknown {}, how);
        case 9: return make(tt::float4 {}, tv::float4 { 0.25F }, how);
        case 10: return make(tt::octet { tt::varying }, tv::octet { "\x01\x02" }, how);
        default: return make(tt::int8 {}, tv::int8 { 1 }, how);
    }
}
template<class T> std::string text_of(T const& v) { std::ostringstream o {}; o.imbue(std::locale::classic()); o << v; return o.str(); }
/// the expression which stands for the entry
std::string meaning(entry const& e) {
    auto x = e.resolve();
    if (x->kind() != ::takatori::scalar::expression_kind::immediate) return "not an immediate";
    auto& i = static_cast<::takatori::scalar::immediate const&>(*x);
    return text_of(i.value()) + ":" + text_of(i.type());
}
char const* const meanings[] { "int4(1):int4()", "int4(2):int4()", "int8(-5):int8()" };

using model_map = std::map<std::string, std::string>;

void compare(char const* what, ::mizugaki::placeholder_map const& m, model_map const& model) {
    for (auto* n : names) {
        auto e = m.find(n);
        auto i = model.find(n);
        if (i == model.end()) { if (e) fail("map", std::string { "the name '" } + n + "' has a value which nobody added, after " + what); continue; }
        if (!e) fail("map", std::string { "the value of '" } + n + "' is lost after " + what);
        auto got = meaning(*e);
        if (got != i->second) fail("map", std::string { "the value of '" } + n + "' is " + got + " instead of " + i->second + " after " + what);
        rt::count(c_compared);
    }
}

/// pieces of a statement: what is written, and the name which it stands for
struct reference { std::size_t begin { 0 }, end { 0 }; std::string name {}; };

void select(op const& o, world& w, ::mizugaki::placeholder_map const& m, model_map const& model, analyzer::sql_analyzer& a, rt::alloc_fault const& fault) {
    // s: the references as they are written
    std::string text { "SELECT " };
    std::vector<reference> refs {};
    bool colon = (o.num(a_flags) & af_colon) != 0;
    long marks = 0;
    for (auto&& r : o.s) {
        if (!refs.empty()) text += ", ";
        reference f {};
        f.begin = text.size();
        text += r;
        f.end = text.size();
        if (r == "?") { f.name = std::to_string(++marks); if (colon) f.name = ":" + f.name; }
        else f.name = colon ? r : r.substr(1);
        refs.push_back(std::move(f));
    }
    if (o.num(a_statement) != 0) text += " FROM pub.t0";
    auto p = make_analyze(text, o.n);
    auto options = make_options(w, p);
    p.n[a_statement] = 0;
    auto src = parse_source(p);
    if (!src.statement) fail("parse", "a statement with host values was not parsed" + where(p));
    ::takatori::util::optional_ptr<::yugawara::variable::provider const> params {};
    bool provider = o.num(a_parameters) != 0;
    if (provider) params = ::takatori::util::optional_ptr<::yugawara::variable::provider const> { w.parameters.get() };
    lookups() = {};
    rt::set_alloc_fault(fault);
    std::string out {};
    bool failed = false;
    try {
        rt::armed x {};
        auto r = a(options, *src.statement, *src.unit, m, params);
        rt::disarmed d {};
        rt::set_alloc_fault({});
        count_result(r);
        out = canon_brief(r);
    } catch (std::bad_alloc const&) {
        rt::set_alloc_fault({});
        if (fault.at < 0) fail("exception", "bad_alloc without a fault" + where(p));
        rt::count(c_threw);
        failed = true;
    }
    if (failed) return;
    bool missing = false;
    static char const* const parameters[] { "p_int", "p_big", "p_str", "p_dec", "p_date", "p_f", "p_bool", ":p_int", ":p_str", ":p_f" };
    for (auto&& f : refs) {
        auto place = "@" + std::to_string(f.begin) + "-" + std::to_string(f.end);
        auto i = model.find(f.name);
        bool declared = provider && std::find_if(std::begin(parameters), std::end(parameters), [&](char const* c) { return f.name == c; }) != std::end(parameters);
        if (i == model.end() && !declared) {
            if (out.compare(0, 11, "diagnostics") != 0) fail("unknown", "a name which has no value and is not declared was accepted: " + f.name + where(p) + "\n  result: " + escape(out, 2000));
            if (!missing && out.find("variable_not_found" + place) == std::string::npos) fail("unknown", "the report of a name without a value does not tell it: " + f.name + where(p) + "\n  result: " + escape(out, 2000));
            missing = true;
        }
    }
    if (missing) return;
    if (out.compare(0, 4, "plan") != 0) fail("refused", "a statement was refused though all its host values are known" + where(p) + "\n  result: " + escape(out, 2000));
    for (auto&& f : refs) {
        auto place = "@" + std::to_string(f.begin) + "-" + std::to_string(f.end);
        auto i = model.find(f.name);
        if (i != model.end()) {
            auto want = "immediate" + place + "(" + i->second + ")";
            if (out.find(want) == std::string::npos) fail("value", "a host value is not in the plan: " + f.name + " = " + i->second + where(p) + "\n  result: " + escape(out, 3000));
        } else {
            auto at = out.find("variable_reference" + place + "(");
            auto end = at == std::string::npos ? at : out.find(place + ")", at + 19);
            if (end == std::string::npos || out.substr(at, end - at).find(f.name) == std::string::npos) fail("value", "a host variable is not in the plan: " + f.name + where(p) + "\n  result: " + escape(out, 3000));
        }
        rt::count(c_compared);
    }
}

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        w.placeholders.clear();
        auto live = rt::live_armed_blocks();
        for (long k = 0; k < 3; ++k) for (long h = 0; h < 4; ++h) if (meaning(make(k, h)) != meanings[k]) fail("value", "a host value changed: " + meaning(make(k, h)) + " instead of " + meanings[k]);
        {
            std::unique_ptr<::mizugaki::placeholder_map> maps[2] {};
            model_map models[2] {};
            std::unique_ptr<analyzer::sql_analyzer> a {};
            {
                rt::armed x {};
                for (auto& m : maps) m = std::make_unique<::mizugaki::placeholder_map>();
                a = std::make_unique<analyzer::sql_analyzer>();
            }
            for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
                auto&& o = s.threads[0][i];
                rt::alloc_fault af {};
                if (auto* f = s.fault_of(0, static_cast<int>(i), "alloc")) { af.at = f->at; af.len = f->len; }
                auto which = static_cast<std::size_t>(o.num(o.kind == "select" ? 8 : 0) & 1);
                auto& m = *maps[which];
                auto& model = models[which];
                auto text = o.kind + " (step " + std::to_string(i) + ")";
                if (o.kind == "select") { select(o, w, m, model, *a, af); continue; }
                std::string name { names[o.num(1) % name_count] };
                bool done = false;
                if (o.kind == "add") {
                    model_map next { model };
                    next[name] = meaning(make(o.num(2), 2));
                    rt::set_alloc_fault(af);
                    try {
                        rt::armed x {};
                        auto& self = m.add(std::string { name }, make(o.num(2), o.num(3)));
                        done = std::addressof(self) == std::addressof(m);
                        if (!done) fail("map", "add does not return the map");
                    } catch (std::bad_alloc const&) {}
                    rt::set_alloc_fault({});
                    if (done) model = std::move(next);
                } else if (o.kind == "clear") {
                    rt::armed x {};
                    m.clear();
                    rt::disarmed d {};
                    model.clear();
                    done = true;
                } else if (o.kind == "copy") {
                    rt::set_alloc_fault(af);
                    try {
                        rt::armed x {};
                        ::mizugaki::placeholder_map c { m };
                        *maps[which ^ 1U] = std::move(c);
                        done = true;
                    } catch (std::bad_alloc const&) {}
                    rt::set_alloc_fault({});
                    if (done) models[which ^ 1U] = model;
                } else if (o.kind == "reserve") {
                    rt::set_alloc_fault(af);
                    try {
                        rt::armed x {};
                        m.reserve(static_cast<std::size_t>(o.num(1)));
                        done = true;
                    } catch (std::bad_alloc const&) {}
                    rt::set_alloc_fault({});
                }
                if (!done) { if (af.at < 0) fail("exception", "bad_alloc without a fault in " + text); rt::count(c_threw); }
                compare(text.c_str(), *maps[0], models[0]);
                compare(text.c_str(), *maps[1], models[1]);
            }
            rt::armed x {};
            for (auto& m : maps) m.reset();
            a.reset();
        }
        rt::count(c_leak_checked);
        if (rt::live_armed_blocks() != live) fail("leak", std::string { "blocks remain allocated after the maps are gone\n" } + rt::describe_live(4));
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.cfg["locale"] = r.chance(1, 6);
    s.threads.resize(1);
    static char const* const written[] { ":a", ":b", ":A", ":p_int", ":p_str", "?", ":a_name_which_is_too_long_for_the_small_string", ":h", ":p_f" };
    for (auto n = r.range(4, thorough ? 40 : 20), i = 0L; i < n; ++i) {
        op o {};
        long which = r.chance(3, 4) ? 0 : 1;
        bool few = r.chance(1, 2);
        if (r.chance(1, 2)) o = { "add", { which, few ? static_cast<long>(r.below(4)) : static_cast<long>(r.below(name_count)), r.range(0, values - 1), r.range(0, 3) }, {} };
        else if (r.chance(3, 4)) {
            o.kind = "select";
            auto x = random_options(r);
            if (r.chance(1, 4)) x[a_flags] |= af_colon;
            x[a_flags] |= af_null;
            x[a_path] = 0;
            x[a_source] = 0;
            x[a_parameters] = r.chance(2, 3);
            x[a_statement] = r.chance(1, 2);
            x.push_back(which);
            o.n = std::move(x);
            for (auto k = r.range(1, 4); k > 0; --k) o.s.emplace_back(written[r.below(few ? 3 : 9)]);
        } else if (r.chance(1, 3)) o = { "clear", { which }, {} };
        else if (r.chance(1, 2)) o = { "copy", { which }, {} };
        else o = { "reserve", { which, r.range(0, 100) }, {} };
        if (r.chance(1, 5)) s.faults.push_back({ 0, static_cast<int>(i), "alloc", static_cast<long>(r.below(o.kind == "select" ? 120 : 4)), r.chance(1, 4) ? 1000000 : 1, 0 });
        s.threads[0].push_back(std::move(o));
    }
}

property const p { id, "", generate, execute, solo_analyze, [](op const&) { return false; }, 4000, 400000,
    "A run adds, replaces, copies and clears host values in two maps, 4 to 20 steps, and analyses statements which refer to 1 to 4 of them by name or by position, with and without declared host variables and with memory running out in some steps." };
registrar const reg { &p };

} // namespace
} // namespace sim
