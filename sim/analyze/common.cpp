// Operations on the analyzer.
#include "analyze.h"

#include <mizugaki/parser/sql_parser.h>
#include <yugawara/binding_all.h>

#include <locale>
#include <sstream>

namespace sim {

op make_analyze(std::string text, std::vector<long> n) { return { "analyze", std::move(n), { std::move(text) } }; }

std::string where(op const& o) {
    std::string r = "\n  text: " + escape(o.str(0), 900) + "\n  options:";
    for (auto x : o.n) r += " " + std::to_string(x);
    return r;
}

std::vector<long> random_options(rt::prng& r) {
    long f = af_lower;
    static long const some[] { af_null, af_write, af_colon, af_small_integer, af_small_character, af_small_binary, af_small_decimal, af_cycle };
    if (r.chance(1, 6)) f = r.chance(1, 2) ? 0 : static_cast<long>(r.below(64));
    for (auto b : some) if (r.chance(1, b == af_colon ? 16 : 4)) f |= b;
    if (r.chance(7, 8)) f |= af_cast;
    if (r.chance(7, 8)) f |= af_validate;
    return { f, r.chance(1, 8) ? r.range(-1, 40) : 38, r.chance(1, 12) ? r.range(1, 3) : 0, r.chance(1, 6) ? r.range(1, 2) : 0, r.chance(1, 8) ? 0 : 1, r.chance(1, 8) ? 1 : 0, r.chance(1, 8) ? r.range(1, 3) : 0, 0 };
}

analyzer::sql_analyzer_options make_options(world const& w, op const& o) {
    using path = ::yugawara::schema::search_path;
    using element = ::takatori::util::maybe_shared_ptr<::yugawara::schema::declaration const>;
    auto s = std::make_shared<path>();
    auto add = [&](std::shared_ptr<::yugawara::schema::declaration> const& d) { s->elements().push_back(element { std::shared_ptr<::yugawara::schema::declaration const> { d } }); };
    switch (o.num(a_path)) {
        case 0: add(w.first); add(w.second); break;
        case 1: add(w.second); add(w.first); break;
        case 2: break;
        default: add(w.first); break;
    }
    analyzer::sql_analyzer_options r { w.catalog, s, w.first };
    auto f = o.num(a_flags);
    r.lowercase_regular_identifiers() = (f & af_lower) != 0;
    r.lowercase_variable_regular_identifiers() = (f & af_lower_variable) != 0;
    r.lowercase_function_regular_identifiers() = (f & af_lower_function) != 0;
    r.lowercase_relation_regular_identifiers() = (f & af_lower_relation) != 0;
    r.lowercase_schema_regular_identifiers() = (f & af_lower_schema) != 0;
    r.lowercase_catalog_regular_identifiers() = (f & af_lower_catalog) != 0;
    r.allow_context_independent_null() = (f & af_null) != 0;
    r.prefer_write_statement() = (f & af_write) != 0;
    r.host_parameter_declaration_starts_with_colon() = (f & af_colon) != 0;
    r.prefer_small_integer_literals() = (f & af_small_integer) != 0;
    r.prefer_small_character_literals() = (f & af_small_character) != 0;
    r.prefer_small_binary_literals() = (f & af_small_binary) != 0;
    r.prefer_small_decimal_literals() = (f & af_small_decimal) != 0;
    r.validate_scalar_expressions() = (f & af_validate) != 0;
    r.cast_literals_in_context() = (f & af_cast) != 0;
    r.default_sequence_cycle() = (f & af_cycle) != 0;
    auto d = o.num(a_decimal, 38);
    if (d < 0) r.default_decimal_precision() = std::nullopt; else r.default_decimal_precision() = static_cast<std::size_t>(d);
    if (o.num(a_sequence) != 0) r.advance_sequence_function_name() = "no_such_function";
    if (o.num(a_precision) == 1) { r.max_binary_integer4_precision() = 9; r.max_decimal_precision() = 20; }
    if (o.num(a_precision) == 2) { r.max_decimal_precision() = 5; r.max_binary_float4_precision() = 0; }
    if (o.num(a_precision) == 3) r.system_zone_offset() = analyzer::sql_analyzer_options::zone_offset_type { 540 };
    return r;
}

std::string describe(analyzer::sql_analyzer_options const& o) {
    std::ostringstream s {};
    s << std::addressof(o.catalog()) << " " << std::addressof(o.schema_search_path()) << " " << std::addressof(o.default_schema());
    for (auto&& e : o.schema_search_path().elements()) s << " " << e.get();
    s << " " << o.lowercase_regular_identifiers() << o.lowercase_variable_regular_identifiers() << o.lowercase_function_regular_identifiers() << o.lowercase_relation_regular_identifiers() << o.lowercase_schema_regular_identifiers() << o.lowercase_catalog_regular_identifiers()
      << o.allow_context_independent_null() << o.prefer_write_statement() << o.host_parameter_declaration_starts_with_colon() << o.prefer_small_integer_literals() << o.prefer_small_character_literals() << o.prefer_small_binary_literals() << o.prefer_small_decimal_literals()
      << o.validate_scalar_expressions() << o.cast_literals_in_context() << o.default_sequence_cycle();
    s << " " << (o.default_decimal_precision() ? static_cast<long>(*o.default_decimal_precision()) : -1L) << " " << o.max_decimal_precision() << " " << o.max_binary_integer4_precision() << " " << o.max_binary_float4_precision() << " " << o.advance_sequence_function_name() << " " << o.system_zone_offset().count();
    return s.str();
}

source parse_source(op const& o) {
    source s {};
    s.document = std::make_shared<::takatori::document::basic_document const>("sim.sql", o.str(0));
    ::mizugaki::parser::sql_parser p {};
    auto r = p(s.document);
    if (!r.has_value()) return s;
    s.unit.emplace(std::move(*r.value()));
    auto i = static_cast<std::size_t>(o.num(a_statement));
    if (s.unit->statements().empty()) return s;
    s.statement = s.unit->statements()[i < s.unit->statements().size() ? i : 0].get();
    return s;
}

analyzer::sql_analyzer_result call(analyzer::sql_analyzer& a, analyzer::sql_analyzer_options const& options, source const& s, world const& w, op const& o) {
    ::takatori::util::optional_ptr<::yugawara::variable::provider const> params {};
    if (o.num(a_parameters, 1) != 0) params = ::takatori::util::optional_ptr<::yugawara::variable::provider const> { w.parameters.get() };
    switch (o.num(a_source)) {
        case 1: return a(options, *s.statement, {}, {}, w.placeholders, params);
        case 2: return a(options, *s.statement, ::takatori::util::optional_ptr<::takatori::document::document const> { s.document.get() }, {}, w.placeholders, params);
        default: return a(options, *s.statement, *s.unit, w.placeholders, params);
    }
}

static void plain_identity(std::ostream& o, void const*) { o << "@"; }

// independent of the locale which the run chose
struct plain_locale {
    std::locale old { std::locale::global(std::locale::classic()) };
    ~plain_locale() { std::locale::global(old); }
};
std::string canon_full(analyzer::sql_analyzer_result const& r) { plain_locale l {}; return canon(r, true); }
std::string canon_brief(analyzer::sql_analyzer_result const& r) { plain_locale l {}; return canon(r, false); }

void count_result(analyzer::sql_analyzer_result const& r) {
    using k = analyzer::sql_analyzer_result_kind;
    rt::count(r.kind() == k::diagnostics ? c_analyze_diag : r.kind() == k::execution_plan ? c_analyze_plan : c_analyze_statement);
}

void solo_analyze(op const& o) {
    std::string full {}, brief {};
    rt::run_single([&] {
        auto s = parse_source(o);
        if (!s.statement) return;
        world w {};
        if (o.num(a_catalog) != 0) w.become(o.num(a_catalog));
        auto options = make_options(w, o);
        analyzer::sql_analyzer a {};
        rt::armed x {};
        auto r = call(a, options, s, w, o);
        rt::disarmed d {};
        full = canon_full(r);
        brief = canon_brief(r);
        solo_events(lookups().seen);
    }, 65536);
    if (!full.empty()) rt::output(full + part_separator + brief);
}

installed_faults install_faults(scenario const& s, int thread, int op) {
    installed_faults r {};
    auto& l = lookups();
    l = {};
    long first = -1;
    for (auto* f : s.faults_of(thread, op)) {
        if (f->kind == "alloc") { r.alloc.at = f->at; r.alloc.len = f->len; }
        if (f->kind == "catalog") {
            auto a = static_cast<lookup_action>(f->arg);
            l.entries.push_back({ f->at, f->len, a });
            if (a >= lookup_action::answer_nothing) r.answers = true;
            else { r.catalog = true; if (first < 0 || f->at < first) { first = f->at; r.first = a; } }
        }
    }
    rt::set_alloc_fault(r.alloc);
    return r;
}
void remove_faults() { rt::set_alloc_fault({}); lookups() = {}; }

op random_analyze(rt::prng& r, std::size_t size) { return make_analyze(random_statement(r, size), random_options(r)); }

op parsed_analyze(rt::prng& r, oracle& orc, char const* prop, std::size_t size) {
    op o {};
    bool any = r.chance(1, 4);
    for (int i = 0; i < 6; ++i) {
        o = random_analyze(r, size);
        auto&& m = orc.solo(prop, o);
        if (!parses(m)) continue;
        if (any || m.parts[0].compare(0, 11, "diagnostics") != 0) break;
    }
    if (!parses(orc.solo(prop, o))) o = make_analyze("SELECT k FROM t0 WHERE c0 = 1", random_options(r));
    return o;
}

namespace { struct install { install() { ::yugawara::binding::identity_printer_ = plain_identity; } } const install_ {}; }

} // namespace sim
