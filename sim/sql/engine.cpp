// Catalog of the simulated database, and the executor.
#include "engine.h"

#include <takatori/relation/all.h>
#include <takatori/scalar/all.h>
#include <takatori/statement/all.h>
#include <takatori/value/all.h>
#include <yugawara/binding_all.h>
#include <yugawara/extension_all.h>

#include <algorithm>
#include <sstream>

namespace sim::sql {

long budget = 0;


namespace td = ::takatori::descriptor;
namespace tr = ::takatori::relation;
namespace ts = ::takatori::scalar;
namespace tst = ::takatori::statement;
namespace tt = ::takatori::type;
namespace yb = ::yugawara::binding;
namespace yr = ::yugawara::extension::relation;
namespace ys = ::yugawara::extension::scalar;
namespace yst = ::yugawara::storage;
namespace yv = ::yugawara::variable;
namespace yf = ::yugawara::function;
namespace ya = ::yugawara::aggregate;

constexpr std::size_t first_function = 20000, first_tvf = 30000, first_aggregate = 40000;

database::database(rt::u64 seed) : random { seed } {}

void database::declare(std::string const& name, vtype const& type) { host_[name] = type; }
void database::declare_global(std::string const& name, vtype const& type) { global_[name] = type; }

void database::start() {
    auto next = std::make_unique<content_state>();
    by_table_.clear();
    by_column_.clear();
    // functions first: columns may use them
    std::map<std::string, std::shared_ptr<yf::declaration const>> nullary {};
    auto types = [](std::vector<vtype> const& l) { std::vector<std::shared_ptr<tt::data const>> r {}; for (auto&& t : l) r.push_back(to_type(t)); return r; };
    for (std::size_t i = 0; i < functions().size(); ++i) {
        auto&& f = functions()[i];
        auto d = std::make_shared<yf::declaration const>(first_function + i, std::string { f.name }, to_type(f.result), types(f.parameters), yf::function_feature_set { yf::function_feature::scalar_function });
        if (f.parameters.empty()) nullary[f.name] = d;
        next->functions[f.schema].push_back(std::move(d));
    }
    for (std::size_t i = 0; i < tvfs().size(); ++i) {
        auto&& f = tvfs()[i];
        std::vector<tt::table_column> c {};
        for (auto&& [n, t] : f.result) c.emplace_back(std::string { n }, to_type(t));
        next->functions[0].push_back(std::make_shared<yf::declaration const>(first_tvf + i, std::string { f.name }, std::make_shared<tt::table const>(std::move(c)), types(f.parameters), yf::function_feature_set { yf::function_feature::table_valued_function }));
    }
    for (std::size_t i = 0; i < aggregates().size(); ++i) {
        auto&& f = aggregates()[i];
        next->aggregates.push_back(std::make_shared<ya::declaration const>(first_aggregate + i, std::string { f.name }, to_type(f.result), types(f.parameters), true));
    }
    for (int s = 0; s < 3; ++s) {
        auto& st = next->storage[s];
        for (auto&& [name, t] : tables[s]) {
            ::takatori::util::reference_vector<yst::column> columns {};
            for (auto&& c : t.def.columns) {
                yst::column_value v {};
                switch (c.d) {
                    case dflt::none: break;
                    case dflt::constant: v = yst::column_value { std::shared_ptr<::takatori::value::data const> { to_value(c.constant, c.type) } }; break;
                    case dflt::function: v = yst::column_value { nullary.at(c.function) }; break;
                    case dflt::sequence: v = yst::column_value { std::make_shared<yst::sequence const>(std::nullopt, std::string {}, c.seq.initial, c.seq.increment, c.seq.min, c.seq.max, c.seq.cycle) }; break;
                }
                yst::column_feature_set f {};
                if (c.hidden) { if (c.synthesized) f.insert(yst::column_feature::synthesized); f.insert(yst::column_feature::hidden); }
                if (c.read_only) f.insert(yst::column_feature::read_only);
                columns.push_back(yst::column { c.name, to_type(c.type), yv::criteria { c.not_null ? ~yv::nullable : yv::nullable }, std::move(v), f, c.description });
            }
            auto table = std::make_shared<yst::table>(std::nullopt, name, std::move(columns), t.def.description);
            table->owner_internal(std::addressof(world_.provider(static_cast<std::size_t>(s))));
            by_table_[table.get()] = { s, name };
            for (std::size_t i = 0; i < table->columns().size(); ++i) by_column_[std::addressof(table->columns()[i])] = i;
            auto keys = [&](std::vector<key_def> const& l) { std::vector<yst::index::key> r {}; for (auto&& k : l) r.emplace_back(table->columns()[k.column], k.desc ? tr::sort_direction::descendant : tr::sort_direction::ascendant); return r; };
            std::vector<yst::index::column_ref> rest {};
            for (std::size_t i = 0; i < t.def.columns.size(); ++i) if (std::none_of(t.def.primary.begin(), t.def.primary.end(), [&](key_def const& k) { return k.column == i; })) rest.emplace_back(table->columns()[i]);
            st.indices[name] = std::make_shared<yst::index const>(std::nullopt, table, name, keys(t.def.primary), std::move(rest), yst::index_feature_set { yst::index_feature::find, yst::index_feature::scan, yst::index_feature::primary, yst::index_feature::unique });
            for (auto&& i : t.def.indices) st.indices[i.name] = std::make_shared<yst::index const>(std::nullopt, table, i.name, keys(i.keys), std::vector<yst::index::column_ref> {}, yst::index_feature_set { yst::index_feature::find, yst::index_feature::scan }, i.description);
            st.relations[name] = table;
            keep_.push_back(table);       // addresses of objects are not used again
        }
    }
    for (auto&& [n, t] : host_) next->parameters[n] = std::make_shared<yv::declaration const>(std::nullopt, n, to_type(t));
    for (auto&& [n, t] : global_) next->variables[n] = std::make_shared<yv::declaration const>(std::nullopt, n, to_type(t));
    world_.install(std::move(next));
}

std::string database::describe() const {
    std::string s {};
    for (int i = 0; i < 3; ++i) for (auto&& [n, t] : tables[i]) s += "schema " + std::to_string(i) + " " + show(t.def) + "\n";
    for (auto&& g : grants) s += g + "\n";
    return s;
}

namespace {

[[noreturn]] void bad(std::string m) { throw plan_error { std::move(m) }; }

using id = void const*;
struct relation {
    std::vector<id> vars {};
    std::vector<row> rows {};
};
struct env {
    std::vector<id> const* vars { nullptr };
    row const* values { nullptr };
    env const* outer { nullptr };
};
id entity(td::variable const& v) { if (!v) bad("a variable is not resolved"); return std::addressof(v.entity()); }

} // namespace

class executor {
public:
    explicit executor(database& d) : d_ { d } {}

    outcome plan(tr::graph_type const& g) {
        auto* e = end(g);
        outcome o {};
        std::map<id, relation> memo {};
        env none {};
        if (e->kind() == tr::expression_kind::emit) {
            auto& x = static_cast<tr::emit const&>(*e);
            auto in = visit(input(*e, 0), memo, none);
            o.kind = outcome::rows;
            std::vector<std::size_t> at {};
            for (auto&& c : x.columns()) { at.push_back(find(in.vars, entity(c.source()))); o.names.emplace_back(c.name() ? std::string { *c.name() } : std::string {}); }
            for (auto&& r : in.rows) { row v {}; for (auto i : at) v.push_back(r[i]); o.result.push_back(std::move(v)); }
            return o;
        }
        if (e->kind() == tr::expression_kind::write) return write(static_cast<tr::write const&>(*e), visit(input(*e, 0), memo, none));
        bad("a plan ends with an operator which has no effect");
    }
    outcome statement(tst::statement const& s);

private:
    database& d_;

    static tr::expression const* end(tr::graph_type const& g) {
        tr::expression const* r = nullptr;
        for (auto&& e : g) {
            bool last = true;
            for (auto&& p : e.output_ports()) if (p.opposite()) last = false;
            if (last) { if (r) bad("a plan has more than one end"); r = std::addressof(e); }
        }
        if (!r) bad("a plan has no end");
        return r;
    }
    static tr::expression const& input(tr::expression const& e, std::size_t i) {
        auto&& ports = e.input_ports();
        if (i >= ports.size() || !ports[i].opposite()) bad("an input is not connected");
        return ports[i].opposite()->owner();
    }
    static std::size_t find(std::vector<id> const& vars, id v) {
        for (std::size_t i = 0; i < vars.size(); ++i) if (vars[i] == v) return i;
        bad("a variable is used where it is not defined");
    }
    template<class T> void shuffle(T& l) { if (d_.no_shuffle) return; for (std::size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[d_.random.below(i)]); }

    stored_table& table(td::relation const& r) {
        auto* i = r ? dynamic_cast<yb::index_info const*>(std::addressof(r.entity())) : nullptr;
        if (!i) bad("a relation is not an index");
        return table(i->get().table());
    }
    stored_table& table(yst::table const& t) {
        auto k = d_.by_table_.find(std::addressof(t));
        if (k == d_.by_table_.end()) bad("a table is not one of the catalog");
        return d_.tables[k->second.first].at(k->second.second);
    }
    std::size_t column(td::variable const& v) {
        auto* c = v ? dynamic_cast<yb::table_column_info const*>(std::addressof(v.entity())) : nullptr;
        if (!c) bad("a column of a table was expected");
        auto k = d_.by_column_.find(std::addressof(c->column()));
        if (k == d_.by_column_.end()) bad("a column is not one of the catalog");
        return k->second;
    }

    // ---- expressions
    value lookup(td::variable const& v, env const& e) {
        auto i = entity(v);
        if (auto* x = dynamic_cast<yb::external_variable_info const*>(std::addressof(v.entity()))) {
            auto k = d_.variables.find(std::string { x->declaration().name() });
            if (k == d_.variables.end()) bad("an external variable has no value: " + std::string { x->declaration().name() });
            return k->second;
        }
        for (auto* p = std::addressof(e); p != nullptr; p = p->outer) {
            if (!p->vars) continue;
            for (std::size_t k = 0; k < p->vars->size(); ++k) if ((*p->vars)[k] == i) return (*p->values)[k];
        }
        bad("a variable is used where it is not defined");
    }
    template<class O> static cmp convert(O k) {
        switch (k) {
            case ts::comparison_operator::equal: return cmp::eq;
            case ts::comparison_operator::not_equal: return cmp::ne;
            case ts::comparison_operator::less: return cmp::lt;
            case ts::comparison_operator::less_equal: return cmp::le;
            case ts::comparison_operator::greater: return cmp::gt;
            default: return cmp::ge;
        }
    }
    value eval(ts::expression const* e, env const& s) { if (!e) bad("an operand is missing"); return eval(*e, s); }
    value eval(ts::expression const& e, env const& s) {
        switch (e.kind()) {
            case ts::expression_kind::immediate: return from_value(static_cast<ts::immediate const&>(e).value());
            case ts::expression_kind::variable_reference: return lookup(static_cast<ts::variable_reference const&>(e).variable(), s);
            case ts::expression_kind::unary: {
                auto& x = static_cast<ts::unary const&>(e);
                auto v = eval(x.optional_operand().get(), s);
                switch (x.operator_kind()) {
                    case ts::unary_operator::plus: return v;
                    case ts::unary_operator::sign_inversion: return negate(v);
                    case ts::unary_operator::conditional_not: return to_value(!of(v));
                    case ts::unary_operator::length: return v.null() ? value {} : integer(static_cast<long>(v.s.size()));
                    case ts::unary_operator::is_null: return boolean(v.null());
                    case ts::unary_operator::is_true: return boolean(of(v) == ternary::yes);
                    case ts::unary_operator::is_false: return boolean(of(v) == ternary::no);
                    case ts::unary_operator::is_unknown: return boolean(of(v) == ternary::unknown);
                }
                bad("unknown unary operator");
            }
            case ts::expression_kind::cast: { auto& x = static_cast<ts::cast const&>(e); return cast(from_type(x.type()), eval(x.optional_operand().get(), s)); }
            case ts::expression_kind::binary: {
                auto& x = static_cast<ts::binary const&>(e);
                auto a = eval(x.optional_left().get(), s), b = eval(x.optional_right().get(), s);
                switch (x.operator_kind()) {
                    case ts::binary_operator::concat: return arith('|', a, b);
                    case ts::binary_operator::add: return arith('+', a, b);
                    case ts::binary_operator::subtract: return arith('-', a, b);
                    case ts::binary_operator::multiply: return arith('*', a, b);
                    case ts::binary_operator::divide: return arith('/', a, b);
                    case ts::binary_operator::remainder: return arith('%', a, b);
                    case ts::binary_operator::conditional_and: return to_value(both(of(a), of(b)));
                    case ts::binary_operator::conditional_or: return to_value(either(of(a), of(b)));
                }
                bad("unknown binary operator");
            }
            case ts::expression_kind::compare: { auto& x = static_cast<ts::compare const&>(e); return to_value(compare(convert(x.operator_kind()), eval(x.optional_left().get(), s), eval(x.optional_right().get(), s))); }
            case ts::expression_kind::match: {
                auto& x = static_cast<ts::match const&>(e);
                if (x.operator_kind() != ts::match_operator::like) bad("unsupported match operator");
                auto a = eval(x.optional_input().get(), s), b = eval(x.optional_pattern().get(), s);
                if (!x.optional_escape()) return like(a, b, nullptr);
                auto c = eval(x.optional_escape().get(), s);
                return like(a, b, std::addressof(c));
            }
            case ts::expression_kind::conditional: {
                auto& x = static_cast<ts::conditional const&>(e);
                for (auto&& a : x.alternatives()) if (of(eval(a.optional_condition().get(), s)) == ternary::yes) return eval(a.optional_body().get(), s);
                if (x.default_expression()) return eval(x.default_expression().get(), s);
                return {};
            }
            case ts::expression_kind::coalesce: {
                for (auto&& a : static_cast<ts::coalesce const&>(e).alternatives()) { auto v = eval(a, s); if (!v.null()) return v; }
                return {};
            }
            case ts::expression_kind::let: {
                auto& x = static_cast<ts::let const&>(e);
                std::vector<id> vars {};
                row values {};
                env in { std::addressof(vars), std::addressof(values), std::addressof(s) };
                for (auto&& v : x.variables()) { auto r = eval(v.optional_value().get(), in); vars.push_back(entity(v.variable())); values.push_back(std::move(r)); }
                return eval(x.optional_body().get(), in);
            }
            case ts::expression_kind::function_call: {
                auto& x = static_cast<ts::function_call const&>(e);
                row args {};
                for (auto&& a : x.arguments()) args.push_back(eval(a, s));
                auto* f = dynamic_cast<yb::function_info const*>(std::addressof(x.function().entity()));
                auto n = f ? f->get().definition_id() - first_function : ~0UL;
                if (n >= functions().size() || functions()[n].parameters.size() != args.size()) bad("a function is called which is none of the catalog");
                for (std::size_t i = 0; i < args.size(); ++i) args[i] = cast(functions()[n].parameters[i], args[i]);
                return functions()[n].call(args);
            }
            case ts::expression_kind::extension: return extension(static_cast<ts::extension const&>(e), s);
        }
        bad("unknown expression");
    }
    bool plain_ { false };
    template<class P> relation sub(tr::graph_type const& g, P const& params, env const& s) {
        // a write statement is executed without operators: nothing there could compute another relation
        if (plain_) bad("a write statement has a subquery");
        std::vector<id> vars {};
        row values {};
        for (auto&& p : params) { vars.push_back(entity(p.destination())); values.push_back(lookup(p.source(), s)); }
        env in { std::addressof(vars), std::addressof(values), nullptr };
        spend(4);
        std::map<id, relation> memo {};
        return visit(*end(g), memo, in);
    }
    value extension(ts::extension const& e, env const& s) {
        switch (e.extension_id()) {
            case ys::subquery::extension_tag: {
                auto& x = static_cast<ys::subquery const&>(e);
                auto r = sub(x.query_graph(), x.parameters(), s);
                auto i = find(r.vars, entity(x.output_column()));
                value best {};
                for (std::size_t k = 0; k < r.rows.size(); ++k) if (k == 0 || key(r.rows[k][i]) < key(best)) best = r.rows[k][i];
                return best;
            }
            case ys::exists::extension_tag: { auto& x = static_cast<ys::exists const&>(e); return boolean(!sub(x.query_graph(), x.parameters(), s).rows.empty()); }
            case ys::quantified_compare::extension_tag: {
                auto& x = static_cast<ys::quantified_compare const&>(e);
                auto left = eval(x.left(), s);
                auto r = sub(x.query_graph(), x.parameters(), s);
                auto i = find(r.vars, entity(x.right_column()));
                bool any = x.quantifier() == ts::quantifier::any;
                auto t = any ? ternary::no : ternary::yes;
                for (auto&& v : r.rows) { auto c = compare(convert(x.operator_kind()), left, v[i]); t = any ? either(t, c) : both(t, c); }
                return to_value(t);
            }
            default: bad("an extension of scalar expressions cannot be executed");
        }
    }

    // ---- relations
    relation visit(tr::expression const& e, std::map<id, relation>& memo, env const& outer) {
        auto i = memo.find(std::addressof(e));
        if (i != memo.end()) return i->second;
        auto r = run(e, memo, outer);
        memo[std::addressof(e)] = r;
        return r;
    }
    template<class K> std::string keys_of(relation const& r, row const& v, K const& keys) { std::string s {}; for (auto k : keys) s += key(v[k]) + "|"; (void) r; return s; }

    relation run(tr::expression const& e, std::map<id, relation>& memo, env const& outer) {
        using kind = tr::expression_kind;
        auto in = [&](std::size_t i) { return visit(input(e, i), memo, outer); };
        switch (e.kind()) {
            case kind::scan: {
                auto& x = static_cast<tr::scan const&>(e);
                auto& t = table(x.source());
                relation r {};
                std::vector<std::size_t> at {};
                for (auto&& c : x.columns()) { at.push_back(column(c.source())); if (at.back() >= t.def.columns.size()) bad("a column of another table is used"); r.vars.push_back(entity(c.destination())); }
                for (auto&& v : t.rows) { row o {}; for (auto k : at) o.push_back(v[k]); r.rows.push_back(std::move(o)); }
                shuffle(r.rows);
                if (x.limit() && r.rows.size() > *x.limit()) r.rows.resize(*x.limit());
                return r;
            }
            case kind::values: {
                auto& x = static_cast<tr::values const&>(e);
                relation r {};
                for (auto&& c : x.columns()) r.vars.push_back(entity(c));
                for (auto&& v : x.rows()) { row o {}; for (auto&& k : v.elements()) o.push_back(eval(k, outer)); if (o.size() != r.vars.size()) bad("a row of values has a wrong number of elements"); r.rows.push_back(std::move(o)); }
                shuffle(r.rows);
                return r;
            }
            case kind::filter: {
                auto r = in(0);
                auto& c = static_cast<tr::filter const&>(e).condition();
                std::vector<row> rows {};
                for (auto& v : r.rows) { spend(); env s { std::addressof(r.vars), std::addressof(v), std::addressof(outer) }; if (of(eval(c, s)) == ternary::yes) rows.push_back(std::move(v)); }
                r.rows = std::move(rows);
                return r;
            }
            case kind::project: {
                auto r = in(0);
                auto& x = static_cast<tr::project const&>(e);
                auto vars = r.vars;
                for (auto&& c : x.columns()) vars.push_back(entity(c.variable()));
                for (auto& v : r.rows) {
                    auto partial = r.vars;
                    for (auto&& c : x.columns()) { env s { std::addressof(partial), std::addressof(v), std::addressof(outer) }; auto n = eval(c.value(), s); v.push_back(std::move(n)); partial.push_back(entity(c.variable())); }
                }
                r.vars = std::move(vars);
                return r;
            }
            case kind::apply: {
                auto l = in(0);
                auto& x = static_cast<tr::apply const&>(e);
                auto* f = dynamic_cast<yb::function_info const*>(std::addressof(x.function().entity()));
                auto n = f ? f->get().definition_id() - first_tvf : ~0UL;
                if (n >= tvfs().size() || tvfs()[n].parameters.size() != x.arguments().size()) bad("a table-valued function is none of the catalog");
                relation r {};
                r.vars = l.vars;
                for (auto&& c : x.columns()) r.vars.push_back(entity(c.variable()));
                for (auto& v : l.rows) {
                    env s { std::addressof(l.vars), std::addressof(v), std::addressof(outer) };
                    row args {};
                    for (auto&& a : x.arguments()) args.push_back(eval(a, s));
                    auto out = tvfs()[n].call(args);
                    if (out.empty() && x.operator_kind() == tr::apply_kind::outer) out.push_back(row(tvfs()[n].result.size()));
                    for (auto& o : out) { auto w = v; for (auto&& c : x.columns()) { if (c.position() >= o.size()) bad("a table-valued function has no such column"); w.push_back(o[c.position()]); } r.rows.push_back(std::move(w)); }
                }
                shuffle(r.rows);
                return r;
            }
            case kind::join_relation: return join(static_cast<tr::intermediate::join const&>(e), in(0), in(1), outer);
            case kind::aggregate_relation: {
                auto l = in(0);
                auto& x = static_cast<tr::intermediate::aggregate const&>(e);
                relation r {};
                std::vector<std::size_t> keys {};
                for (auto&& k : x.group_keys()) { keys.push_back(find(l.vars, entity(k))); r.vars.push_back(entity(k)); }
                std::map<std::string, std::vector<row>> groups {};
                shuffle(l.rows);
                for (auto& v : l.rows) groups[keys_of(l, v, keys)].push_back(v);
                if (keys.empty()) groups[""];
                for (auto&& c : x.columns()) r.vars.push_back(entity(c.destination()));
                for (auto&& [k, g] : groups) {
                    row o {};
                    for (auto i : keys) o.push_back(g[0][i]);
                    for (auto&& c : x.columns()) {
                        auto* f = dynamic_cast<yb::aggregate_function_info const*>(std::addressof(c.function().entity()));
                        auto n = f ? f->get().definition_id() - first_aggregate : ~0UL;
                        if (n >= aggregates().size() || aggregates()[n].parameters.size() != c.arguments().size()) bad("an aggregate function is none of the catalog");
                        std::vector<std::size_t> at {};
                        for (auto&& a : c.arguments()) at.push_back(find(l.vars, entity(a)));
                        std::vector<row> args {};
                        for (auto&& v : g) { row a {}; for (std::size_t i = 0; i < at.size(); ++i) a.push_back(cast(aggregates()[n].parameters[i], v[at[i]])); args.push_back(std::move(a)); }
                        o.push_back(aggregates()[n].call(args));
                    }
                    r.rows.push_back(std::move(o));
                }
                shuffle(r.rows);
                return r;
            }
            case kind::distinct_relation: {
                auto r = in(0);
                std::vector<std::size_t> keys {};
                for (auto&& k : static_cast<tr::intermediate::distinct const&>(e).group_keys()) keys.push_back(find(r.vars, entity(k)));
                shuffle(r.rows);
                std::map<std::string, row> kept {};
                for (auto& v : r.rows) kept.try_emplace(keys_of(r, v, keys), v);
                r.rows.clear();
                for (auto& [k, v] : kept) r.rows.push_back(std::move(v));
                shuffle(r.rows);
                return r;
            }
            case kind::limit_relation: {
                auto r = in(0);
                auto& x = static_cast<tr::intermediate::limit const&>(e);
                if (!x.group_keys().empty()) bad("limits of groups cannot be executed");
                if (!x.sort_keys().empty()) {
                    std::vector<std::pair<std::size_t, bool>> keys {};
                    for (auto&& k : x.sort_keys()) keys.emplace_back(find(r.vars, entity(k.variable())), k.direction() == tr::sort_direction::descendant);
                    shuffle(r.rows);
                    std::stable_sort(r.rows.begin(), r.rows.end(), [&](row const& a, row const& b) {
                        for (auto [k, desc] : keys) { int o = sort_order(a[k], b[k]); if (o != 0) return (o < 0) != desc; }
                        return false;
                    });
                }
                if (x.count() && r.rows.size() > *x.count()) r.rows.resize(*x.count());
                return r;
            }
            case kind::union_relation: {
                auto l = in(0), q = in(1);
                auto& x = static_cast<tr::intermediate::union_ const&>(e);
                relation r {};
                for (auto&& m : x.mappings()) r.vars.push_back(entity(m.destination()));
                auto add = [&](relation& from, bool left) {
                    for (auto&& v : from.rows) {
                        row o {};
                        for (auto&& m : x.mappings()) {
                            auto&& s = left ? m.left() : m.right();
                            if (s) o.push_back(v[find(from.vars, entity(*s))]); else o.emplace_back();
                        }
                        r.rows.push_back(std::move(o));
                    }
                };
                add(l, true); add(q, false);
                if (x.quantifier() == tr::set_quantifier::distinct) {
                    std::map<std::string, row> kept {};
                    for (auto& v : r.rows) kept.try_emplace(key(v), v);
                    r.rows.clear();
                    for (auto& [k, v] : kept) r.rows.push_back(std::move(v));
                }
                shuffle(r.rows);
                return r;
            }
            case kind::intersection_relation: return pairs(static_cast<tr::intermediate::intersection const&>(e), in(0), in(1), true);
            case kind::difference_relation: return pairs(static_cast<tr::intermediate::difference const&>(e), in(0), in(1), false);
            case kind::extension: {
                auto& x = static_cast<tr::extension const&>(e);
                if (x.extension_id() != yr::subquery::extension_tag) bad("an extension of relations cannot be executed");
                auto& q = static_cast<yr::subquery const&>(e);
                std::map<id, relation> inner {};
                auto o = visit(*end(q.query_graph()), inner, outer);
                relation r {};
                std::vector<std::size_t> at {};
                for (auto&& m : q.mappings()) { at.push_back(find(o.vars, entity(m.source()))); r.vars.push_back(entity(m.destination())); }
                for (auto& v : o.rows) { row w {}; for (auto i : at) w.push_back(v[i]); r.rows.push_back(std::move(w)); }
                shuffle(r.rows);
                return r;
            }
            default: bad("unexpected kind of relation");
        }
    }
    template<class T> relation pairs(T const& x, relation l, relation q, bool intersect) {
        std::vector<std::size_t> a {}, b {};
        for (auto&& m : x.group_key_pairs()) { a.push_back(find(l.vars, entity(m.left()))); b.push_back(find(q.vars, entity(m.right()))); }
        shuffle(l.rows);
        std::map<std::string, std::size_t> right {};
        for (auto& v : q.rows) ++right[keys_of(q, v, b)];
        relation r {};
        r.vars = l.vars;
        bool distinct = x.quantifier() == tr::set_quantifier::distinct;
        std::map<std::string, bool> seen {};
        for (auto& v : l.rows) {
            auto k = keys_of(l, v, a);
            auto n = right.find(k);
            bool match = n != right.end() && n->second > 0;
            if (distinct) { if (match == intersect && !seen[k]) { seen[k] = true; r.rows.push_back(v); } continue; }
            if (match) --n->second;
            if (match == intersect) r.rows.push_back(v);
        }
        shuffle(r.rows);
        return r;
    }
    relation join(tr::intermediate::join const& x, relation l, relation q, env const& outer) {
        relation r {};
        r.vars = l.vars;
        r.vars.insert(r.vars.end(), q.vars.begin(), q.vars.end());
        using k = tr::join_kind;
        auto kind = x.operator_kind();
        std::vector<bool> used(q.rows.size());
        auto glue = [](row a, row const& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
        std::vector<row> left {};
        for (auto& a : l.rows) {
            bool match = false;
            for (std::size_t i = 0; i < q.rows.size(); ++i) {
                spend(1 + static_cast<long>(r.vars.size()) / 4);
                auto v = glue(a, q.rows[i]);
                env s { std::addressof(r.vars), std::addressof(v), std::addressof(outer) };
                if (x.condition() && of(eval(*x.condition(), s)) != ternary::yes) continue;
                match = true;
                used[i] = true;
                if (kind != k::semi && kind != k::anti) r.rows.push_back(std::move(v));
            }
            if ((kind == k::left_outer || kind == k::full_outer) && !match) r.rows.push_back(glue(a, row(q.vars.size())));
            if ((kind == k::semi && match) || (kind == k::anti && !match)) left.push_back(a);
        }
        if (kind == k::left_outer_at_most_one) bad("an unexpected kind of join");
        if (kind == k::full_outer) for (std::size_t i = 0; i < q.rows.size(); ++i) if (!used[i]) r.rows.push_back(glue(row(l.vars.size()), q.rows[i]));
        if (kind == k::semi || kind == k::anti) { r.vars = l.vars; r.rows = std::move(left); }
        shuffle(r.rows);
        return r;
    }

    // ---- changes
    value default_of(stored_table& t, std::size_t c) {
        auto& d = t.def.columns[c];
        switch (d.d) {
            case dflt::none: return {};
            case dflt::constant: return d.constant;
            case dflt::function: for (auto&& f : functions()) if (f.name == d.function && f.parameters.empty()) return f.call({}); return {};
            case dflt::sequence: return next_value(t, c);
        }
        return {};
    }
    outcome insert(stored_table& t, std::vector<std::size_t> const& at, std::vector<row> const& values, tr::write_kind k) {
        std::vector<row> rows {};
        for (auto&& v : values) {
            row r(t.def.columns.size());
            std::vector<bool> set(r.size());
            for (std::size_t i = 0; i < at.size(); ++i) {
                if (at[i] >= r.size() || set[at[i]]) bad("a column is written twice, or is none of the table");
                set[at[i]] = true;
                r[at[i]] = cast(t.def.columns[at[i]].type, v[i]);
            }
            for (std::size_t i = 0; i < r.size(); ++i) if (!set[i]) r[i] = default_of(t, i);
            rows.push_back(std::move(r));
        }
        outcome o {};
        o.kind = apply_insert(t, rows, k == tr::write_kind::insert ? 0 : k == tr::write_kind::insert_overwrite ? 1 : 2, o.message) ? outcome::changed : outcome::failed;
        return o;
    }
    outcome write(tr::write const& x, relation in) {
        auto& t = table(x.destination());
        auto k = x.operator_kind();
        std::vector<std::size_t> key_at {}, key_from {}, at {}, from {};
        for (auto&& c : x.keys()) { key_from.push_back(find(in.vars, entity(c.source()))); key_at.push_back(column(c.destination())); }
        for (auto&& c : x.columns()) { from.push_back(find(in.vars, entity(c.source()))); at.push_back(column(c.destination())); }
        for (auto i : key_at) if (std::none_of(t.def.primary.begin(), t.def.primary.end(), [&](key_def const& d) { return d.column == i; })) bad("a key to write is no part of the primary key");
        if (k == tr::write_kind::insert || k == tr::write_kind::insert_overwrite || k == tr::write_kind::insert_skip) {
            at.insert(at.begin(), key_at.begin(), key_at.end());
            from.insert(from.begin(), key_from.begin(), key_from.end());
            std::vector<row> values {};
            for (auto&& v : in.rows) { row r {}; for (auto i : from) r.push_back(v[i]); values.push_back(std::move(r)); }
            return insert(t, at, values, k);
        }
        if (key_at.size() != t.def.primary.size()) bad("a row to change is not identified");
        std::vector<std::size_t> which {};
        std::vector<row> rows {};
        for (auto&& v : in.rows) {
            auto i = std::find_if(t.rows.begin(), t.rows.end(), [&](row const& r) { for (std::size_t n = 0; n < key_at.size(); ++n) if (key(r[key_at[n]]) != key(v[key_from[n]])) return false; return true; });
            if (i == t.rows.end()) bad("a row to change does not exist");
            auto r = *i;
            std::vector<bool> set(r.size());
            for (std::size_t n = 0; n < at.size(); ++n) { if (at[n] >= r.size() || set[at[n]]) bad("a column is written twice, or is none of the table"); set[at[n]] = true; r[at[n]] = cast(t.def.columns[at[n]].type, v[from[n]]); }
            auto w = static_cast<std::size_t>(i - t.rows.begin());
            if (std::find(which.begin(), which.end(), w) != which.end()) bad("a row is changed twice");
            which.push_back(w);
            rows.push_back(std::move(r));
        }
        outcome o {};
        o.kind = outcome::changed;
        if (k == tr::write_kind::delete_) apply_delete(t, which);
        else if (!apply_update(t, which, rows, o.message)) o.kind = outcome::failed;
        return o;
    }

    // ---- definitions
    int schema_of(td::schema const& s) {
        auto* i = s ? dynamic_cast<yb::schema_info const*>(std::addressof(s.entity())) : nullptr;
        if (!i) bad("a schema is not resolved");
        auto* p = std::addressof(i->get());
        if (p == d_.world_.first.get()) return 0;
        if (p == d_.world_.second.get()) return 1;
        if (p == d_.world_.third.get()) return 2;
        bad("a schema is not one of the catalog");
    }
    std::pair<int, std::string> storage_of(td::storage const& s) {
        auto* i = s ? dynamic_cast<yb::table_info const*>(std::addressof(s.entity())) : nullptr;
        if (!i) bad("a table is not resolved");
        auto k = d_.by_table_.find(std::addressof(i->get()));
        if (k == d_.by_table_.end()) bad("a table is not one of the catalog");
        return k->second;
    }
    yst::index const& index_of(td::relation const& r) {
        auto* i = r ? dynamic_cast<yb::index_info const*>(std::addressof(r.entity())) : nullptr;
        if (!i) bad("an index is not resolved");
        return i->get();
    }
    static std::vector<key_def> keys_of(yst::index const& i) {
        std::vector<key_def> r {};
        auto&& columns = i.table().columns();
        for (auto&& k : i.keys()) {
            std::size_t at = 0;
            while (at < columns.size() && std::addressof(columns[at]) != std::addressof(k.column())) ++at;
            if (at == columns.size()) bad("a key of an index is no column of its table");
            r.push_back({ at, k.direction() == tr::sort_direction::descendant });
        }
        return r;
    }
};

outcome executor::statement(tst::statement const& s) {
    outcome o {};
    o.kind = outcome::defined;
    using kind = tst::statement_kind;
    switch (s.kind()) {
        case kind::empty: return o;
        case kind::write: {
            auto& w = static_cast<tst::write const&>(s);
            auto& t = table(w.destination());
            std::vector<std::size_t> at {};
            for (auto&& c : w.columns()) at.push_back(column(c));
            std::vector<row> rows {};
            env none {};
            plain_ = true;
            for (auto&& x : w.tuples()) {
                row r {};
                for (auto&& e : x.elements()) r.push_back(eval(e, none));
                if (r.size() != at.size()) bad("a tuple to write has a wrong number of elements");
                rows.push_back(std::move(r));
            }
            plain_ = false;
            shuffle(rows);
            return insert(t, at, rows, w.operator_kind());
        }
        case kind::create_table: {
            auto& c = static_cast<tst::create_table const&>(s);
            auto schema = schema_of(c.schema());
            auto* i = dynamic_cast<yb::table_info const*>(std::addressof(c.definition().entity()));
            if (!i) bad("a table is not resolved");
            auto& t = i->get();
            stored_table n {};
            n.def.name = std::string { t.simple_name() };
            n.def.description = std::string { t.description() };
            if (n.def.name.empty() || d_.tables[schema].count(n.def.name) != 0) bad("a table with this name exists: " + n.def.name);
            for (auto&& x : t.columns()) {
                column_def cd {};
                cd.name = std::string { x.simple_name() };
                cd.type = from_type(x.type());
                cd.not_null = x.criteria().nullity() == ~yv::nullable;
                cd.hidden = x.features().contains(yst::column_feature::hidden) || x.features().contains(yst::column_feature::synthesized);
                cd.read_only = x.features().contains(yst::column_feature::read_only);
                cd.description = std::string { x.description() };
                auto&& v = x.default_value();
                switch (v.kind()) {
                    case yst::column_value_kind::nothing: break;
                    case yst::column_value_kind::immediate: cd.d = dflt::constant; cd.constant = cast(cd.type, from_value(*v.element<yst::column_value_kind::immediate>())); break;
                    case yst::column_value_kind::function: cd.d = dflt::function; cd.function = std::string { v.element<yst::column_value_kind::function>()->name() }; break;
                    case yst::column_value_kind::sequence: {
                        auto& q = *v.element<yst::column_value_kind::sequence>();
                        cd.d = dflt::sequence;
                        cd.seq.initial = q.initial_value();
                        cd.seq.increment = q.increment_value();
                        cd.seq.cycle = q.cycle();
                        if (!q.min_value() || !q.max_value()) bad("a sequence has no bounds");
                        cd.seq.min = *q.min_value();
                        cd.seq.max = *q.max_value();
                        break;
                    }
                }
                n.def.columns.push_back(std::move(cd));
            }
            auto& p = index_of(c.primary_key());
            if (std::addressof(p.table()) != std::addressof(t)) bad("the primary key belongs to another table");
            if (!p.features().contains(yst::index_feature::primary)) bad("the primary key is not marked as such");
            n.def.primary = keys_of(p);
            complete(n.def);
            d_.tables[schema][n.def.name] = std::move(n);
            return o;
        }
        case kind::create_index: {
            auto& c = static_cast<tst::create_index const&>(s);
            auto& i = index_of(c.definition());
            auto t = d_.by_table_.find(std::addressof(i.table()));
            if (t == d_.by_table_.end()) bad("an index is created for a table which is not in the catalog");
            index_def n {};
            n.name = index_name(d_.tables[t->second.first].at(t->second.second).def, std::string { i.simple_name() });
            n.description = std::string { i.description() };
            n.keys = keys_of(i);
            if (i.features().contains(yst::index_feature::primary) || i.features().contains(yst::index_feature::unique)) bad("a secondary index has features of a primary one");
            for (auto&& [tn, x] : d_.tables[t->second.first]) { if (tn == n.name) bad("an index with this name exists"); for (auto&& y : x.def.indices) if (y.name == n.name) bad("an index with this name exists"); }
            d_.tables[t->second.first].at(t->second.second).def.indices.push_back(std::move(n));
            if (schema_of(c.schema()) != t->second.first) bad("an index is created in another schema than its table");
            return o;
        }
        case kind::drop_table: {
            auto& c = static_cast<tst::drop_table const&>(s);
            auto t = storage_of(c.target());
            if (schema_of(c.schema()) != t.first) bad("a table is dropped from another schema");
            d_.tables[t.first].erase(t.second);
            return o;
        }
        case kind::drop_index: {
            auto& c = static_cast<tst::drop_index const&>(s);
            auto& i = index_of(c.target());
            auto t = d_.by_table_.find(std::addressof(i.table()));
            if (t == d_.by_table_.end()) bad("an index to drop is not in the catalog");
            if (schema_of(c.schema()) != t->second.first) bad("an index is dropped from another schema");
            auto& l = d_.tables[t->second.first].at(t->second.second).def.indices;
            auto n = l.size();
            l.erase(std::remove_if(l.begin(), l.end(), [&](index_def const& x) { return x.name == i.simple_name(); }), l.end());
            if (l.size() + 1 != n) bad("an index to drop does not exist");
            return o;
        }
        case kind::rename_table: {
            auto& c = static_cast<tst::rename_table const&>(s);
            auto t = storage_of(c.target());
            if (schema_of(c.schema()) != t.first) bad("a table is renamed in another schema");
            std::string n { c.replacement() };
            if (d_.tables[t.first].count(n) != 0) bad("a table with this name exists");
            auto x = std::move(d_.tables[t.first].at(t.second));
            x.def.name = n;
            d_.tables[t.first].erase(t.second);
            d_.tables[t.first][n] = std::move(x);
            return o;
        }
        case kind::rename_column: {
            auto& c = static_cast<tst::rename_column const&>(s);
            auto t = storage_of(c.table());
            auto& x = d_.tables[t.first].at(t.second);
            auto* v = dynamic_cast<yb::table_column_info const*>(std::addressof(c.target().entity()));
            auto* i = dynamic_cast<yb::table_info const*>(std::addressof(c.table().entity()));
            if (!v || !i) bad("a column to rename is not resolved");
            std::size_t at = 0;
            auto&& columns = i->get().columns();
            while (at < columns.size() && std::addressof(columns[at]) != std::addressof(v->column())) ++at;
            if (at == columns.size()) bad("a column to rename is none of its table");
            for (auto&& y : x.def.columns) if (y.name == c.replacement()) bad("a column with this name exists");
            x.def.columns[at].name = std::string { c.replacement() };
            return o;
        }
        case kind::rename_index: {
            auto& c = static_cast<tst::rename_index const&>(s);
            auto& i = index_of(c.target());
            auto t = d_.by_table_.find(std::addressof(i.table()));
            if (t == d_.by_table_.end()) bad("an index to rename is not in the catalog");
            if (schema_of(c.schema()) != t->second.first) bad("an index is renamed in another schema");
            bool done = false;
            for (auto& x : d_.tables[t->second.first].at(t->second.second).def.indices) if (x.name == i.simple_name()) { x.name = std::string { c.replacement() }; done = true; }
            if (!done) bad("an index to rename does not exist");
            return o;
        }
        case kind::truncate_table: {
            auto& c = static_cast<tst::truncate_table const&>(s);
            auto t = storage_of(c.target());
            auto& x = d_.tables[t.first].at(t.second);
            x.rows.clear();
            if (c.options().contains(tst::truncate_table_option_kind::restart_identity)) x.next.clear();
            return o;
        }
        case kind::grant_table: case kind::revoke_table: {
            auto go = [&](auto const& c, char const* what) {
                for (auto&& e : c.elements()) {
                    auto t = storage_of(e.table());
                    std::ostringstream l {};
                    l << what << " " << t.first << "." << t.second << " public:";
                    for (auto&& a : e.default_privileges()) l << " " << a.action_kind();
                    for (auto&& u : e.authorization_entries()) { l << " " << u.user_kind() << "=" << u.authorization_identifier() << ":"; for (auto&& a : u.privileges()) l << " " << a.action_kind(); }
                    d_.grants.push_back(l.str());
                }
            };
            if (s.kind() == kind::grant_table) go(static_cast<tst::grant_table const&>(s), "grant"); else go(static_cast<tst::revoke_table const&>(s), "revoke");
            return o;
        }
        default: bad("an unexpected kind of statement");
    }
}

outcome database::execute(analyzer::sql_analyzer_result const& r) {
    executor e { *this };
    using k = analyzer::sql_analyzer_result_kind;
    switch (r.kind()) {
        case k::execution_plan: return e.plan(r.element<k::execution_plan>());
        case k::statement: return e.statement(r.element<k::statement>());
        default: return {};
    }
}

} // namespace sim::sql
