// Canonical form of results of analyses, and what makes one well-formed.
#include "analyze.h"

#include <takatori/relation/all.h>
#include <takatori/scalar/all.h>
#include <takatori/statement/all.h>
#include <yugawara/binding_all.h>
#include <yugawara/extension_all.h>

#include <set>
#include <sstream>
#include <unordered_map>

namespace sim {
namespace {

namespace td = ::takatori::descriptor;
namespace tr = ::takatori::relation;
namespace ts = ::takatori::scalar;
namespace yb = ::yugawara::binding;
namespace yr = ::yugawara::extension::relation;
namespace ys = ::yugawara::extension::scalar;

using analyzer::sql_analyzer_result_kind;

/// variables which an expression may use
using scope = std::set<void const*>;

class walker {
public:
    std::string out {};
    std::string problem {};
    ::takatori::document::document const* document { nullptr };
    bool any_region { true };        // a missing document is allowed
    std::size_t text_size { 0 };
    u64 nodes { 0 }, variables { 0 };

    std::function<std::string(::takatori::document::region const&)> namer {};
    void region(::takatori::document::region const& r) {
        if (namer) { out += namer(r); return; }
        if (!r) { out += "@?"; return; }
        out += "@" + std::to_string(r.begin()) + "-" + std::to_string(r.end());
        if (!any_region && document && r.source() != document) bad("a region refers to another document");
        if (r.begin() > r.end() || (document && r.source() == document && r.end() > text_size)) bad("a region lies outside of the document: " + std::to_string(r.begin()) + "-" + std::to_string(r.end()));
    }
    void bad(std::string m) { if (problem.empty()) problem = std::move(m); }

    template<class T> void print(T const& v) { std::ostringstream o {}; o.precision(17); o << v; out += o.str(); }

    /// prints a variable
    void var(td::variable const& v) {
        if (!v) { out += "(unresolved)"; bad("a variable is not resolved"); return; }
        auto& e = v.entity();
        if (auto* i = dynamic_cast<yb::identity_variable_info const*>(std::addressof(e))) {
            auto x = ids_.try_emplace(std::addressof(e), ids_.size()).first->second;
            std::ostringstream o {};
            o << i->kind() << "(" << i->label() << "#" << x << ")";
            out += o.str();
        } else print(v);
        region(v.region());
        ++variables;
    }
    void def(td::variable const& v, scope& s) {
        var(v);
        if (!v) return;
        if (!dynamic_cast<yb::identity_variable_info const*>(std::addressof(v.entity()))) { bad("a plan defines a variable which is not its own: " + name(v)); return; }
        s.insert(std::addressof(v.entity()));
    }
    void use(td::variable const& v, scope const& s) {
        var(v);
        if (!v) return;
        auto& e = v.entity();
        if (dynamic_cast<yb::identity_variable_info const*>(std::addressof(e)) != nullptr) {
            if (s.count(std::addressof(e)) == 0) bad("a variable is used where it is not defined: " + name(v));
        } else if (dynamic_cast<yb::external_variable_info const*>(std::addressof(e)) == nullptr) {
            bad("a column of a table is used outside of the scan of its table: " + name(v));
        }
    }
    std::string name(td::variable const& v) {
        std::ostringstream o {};
        o << v;
        auto s = o.str();
        auto a = s.find("@0x");
        if (a != std::string::npos) s = s.substr(0, a) + "...";
        return s + "@" + std::to_string(v.region().begin()) + "-" + std::to_string(v.region().end());
    }
    void column(td::variable const& v, ::yugawara::storage::table const* t) {
        var(v);
        auto* c = v ? dynamic_cast<yb::table_column_info const*>(std::addressof(v.entity())) : nullptr;
        if (!c) bad("a column of a table was expected: " + (v ? name(v) : "?"));
        else if (t) {
            bool found = false;
            for (auto&& x : t->columns()) if (std::addressof(x) == std::addressof(c->column())) found = true;
            if (!found) bad("a column of another table is used: " + name(v));
        }
    }
    ::yugawara::storage::table const* source(td::relation const& r) {
        print(r);
        region(r.region());
        if (!r) { bad("a relation is not resolved"); return nullptr; }
        auto* i = dynamic_cast<yb::index_info const*>(std::addressof(r.entity()));
        return i ? std::addressof(i->get().table()) : nullptr;
    }

    // scalar expressions
    void scalar(ts::expression const* e, scope const& s) {
        if (!e) { out += "(none)"; bad("an operand is missing"); return; }
        ++nodes;
        std::ostringstream k {};
        k << e->kind();
        out += k.str();
        region(e->region());
        out += "(";
        switch (e->kind()) {
            case ts::expression_kind::immediate: {
                auto& x = static_cast<ts::immediate const&>(*e);
                print(x.value()); out += ":"; print(x.type());
                break;
            }
            case ts::expression_kind::variable_reference: use(static_cast<ts::variable_reference const&>(*e).variable(), s); break;
            case ts::expression_kind::unary: {
                auto& x = static_cast<ts::unary const&>(*e);
                print(x.operator_kind()); out += ","; scalar(x.optional_operand().get(), s);
                break;
            }
            case ts::expression_kind::cast: {
                auto& x = static_cast<ts::cast const&>(*e);
                print(x.type()); out += ","; print(x.loss_policy()); out += ","; scalar(x.optional_operand().get(), s);
                break;
            }
            case ts::expression_kind::binary: {
                auto& x = static_cast<ts::binary const&>(*e);
                print(x.operator_kind()); out += ","; scalar(x.optional_left().get(), s); out += ","; scalar(x.optional_right().get(), s);
                break;
            }
            case ts::expression_kind::compare: {
                auto& x = static_cast<ts::compare const&>(*e);
                print(x.operator_kind()); out += ","; scalar(x.optional_left().get(), s); out += ","; scalar(x.optional_right().get(), s);
                break;
            }
            case ts::expression_kind::match: {
                auto& x = static_cast<ts::match const&>(*e);
                print(x.operator_kind()); out += ","; scalar(x.optional_input().get(), s); out += ","; scalar(x.optional_pattern().get(), s); out += ",";
                if (x.optional_escape()) scalar(x.optional_escape().get(), s); else out += "-";
                break;
            }
            case ts::expression_kind::conditional: {
                auto& x = static_cast<ts::conditional const&>(*e);
                for (auto&& a : x.alternatives()) { scalar(a.optional_condition().get(), s); out += "->"; scalar(a.optional_body().get(), s); out += ";"; }
                if (x.default_expression()) scalar(x.default_expression().get(), s);
                break;
            }
            case ts::expression_kind::coalesce: list(static_cast<ts::coalesce const&>(*e).alternatives(), s); break;
            case ts::expression_kind::let: {
                auto& x = static_cast<ts::let const&>(*e);
                auto t = s;
                for (auto&& v : x.variables()) { scalar(v.optional_value().get(), t); out += "=>"; def(v.variable(), t); out += ";"; }
                scalar(x.optional_body().get(), t);
                break;
            }
            case ts::expression_kind::function_call: {
                auto& x = static_cast<ts::function_call const&>(*e);
                print(x.function()); out += ","; list(x.arguments(), s);
                auto* f = x.function() ? dynamic_cast<yb::function_info const*>(std::addressof(x.function().entity())) : nullptr;
                if (!f) bad("a function is not resolved");
                else if (f->get().shared_parameter_types().size() != x.arguments().size()) bad("a function is called with a wrong number of arguments");
                break;
            }
            case ts::expression_kind::extension: extension(static_cast<ts::extension const&>(*e), s); break;
        }
        out += ")";
    }
    template<class L> void list(L const& l, scope const& s) { out += "["; for (auto&& x : l) { scalar(std::addressof(x), s); out += ","; } out += "]"; }
    /// parameters of a subquery in an expression: what it may use of the outside
    template<class P> scope parameters(P const& p, scope const& s) {
        scope r {};
        out += "params[";
        for (auto&& x : p) { use(x.source(), s); out += "->"; def(x.destination(), r); out += ","; }
        out += "]";
        return r;
    }
    void extension(ts::extension const& e, scope const& s) {
        switch (e.extension_id()) {
            case ys::subquery::extension_tag: {
                auto& x = static_cast<ys::subquery const&>(e);
                out += "subquery:";
                auto in = parameters(x.parameters(), s);
                auto o = graph(x.query_graph(), in, true);
                use(x.output_column(), o);
                break;
            }
            case ys::exists::extension_tag: {
                auto& x = static_cast<ys::exists const&>(e);
                out += "exists:";
                auto in = parameters(x.parameters(), s);
                graph(x.query_graph(), in, true);
                break;
            }
            case ys::quantified_compare::extension_tag: {
                auto& x = static_cast<ys::quantified_compare const&>(e);
                out += "quantified:"; print(x.operator_kind()); out += ","; print(x.quantifier()); out += ",";
                scalar(std::addressof(x.left()), s);
                auto in = parameters(x.parameters(), s);
                auto o = graph(x.query_graph(), in, true);
                use(x.right_column(), o);
                break;
            }
            case ys::aggregate_function_call::extension_tag: {
                auto& x = static_cast<ys::aggregate_function_call const&>(e);
                out += "aggregate:"; print(x.function()); out += ","; list(x.arguments(), s);
                bad("an aggregate function is called outside of an aggregation");
                break;
            }
            default: bad("unknown extension of scalar expressions"); break;
        }
    }

    // plans
    struct place { scope avail {}; std::size_t id { 0 }; int state { 0 }; };

    scope mapping(std::vector<tr::details::mapping_element> const& m, scope const& in) {
        scope r {};
        for (auto&& x : m) { use(x.source(), in); out += "->"; def(x.destination(), r); out += ","; }
        return r;
    }

    /// what flows out of the expression; inputs are done
    scope relation(tr::expression const& e, std::vector<scope const*> const& in, scope const& outer) {
        scope s = outer;
        for (auto* i : in) s.insert(i->begin(), i->end());
        auto flow = [&] { scope r {}; for (auto* i : in) r.insert(i->begin(), i->end()); return r; };
        using kind = tr::expression_kind;
        switch (e.kind()) {
            case kind::scan: {
                auto& x = static_cast<tr::scan const&>(e);
                auto* t = source(x.source());
                scope r {};
                for (auto&& c : x.columns()) { column(c.source(), t); out += "->"; def(c.destination(), r); out += ","; }
                if (x.limit()) out += "limit " + std::to_string(*x.limit());
                return r;
            }
            case kind::values: {
                auto& x = static_cast<tr::values const&>(e);
                scope r {};
                for (auto&& c : x.columns()) { def(c, r); out += ","; }
                for (auto&& row : x.rows()) {
                    list(row.elements(), s);
                    if (row.elements().size() != x.columns().size()) bad("a row of values has a wrong number of elements");
                }
                return r;
            }
            case kind::filter: { scalar(std::addressof(static_cast<tr::filter const&>(e).condition()), s); return flow(); }
            case kind::project: {
                auto& x = static_cast<tr::project const&>(e);
                auto r = flow();
                for (auto&& c : x.columns()) { scalar(std::addressof(c.value()), s); out += "->"; def(c.variable(), r); s.insert(std::addressof(c.variable().entity())); out += ","; }
                return r;
            }
            case kind::apply: {
                auto& x = static_cast<tr::apply const&>(e);
                print(x.operator_kind()); out += ","; print(x.function()); out += ","; list(x.arguments(), s);
                auto r = flow();
                for (auto&& c : x.columns()) { out += std::to_string(c.position()) + "->"; def(c.variable(), r); out += ","; }
                return r;
            }
            case kind::emit: {
                auto& x = static_cast<tr::emit const&>(e);
                for (auto&& c : x.columns()) { use(c.source(), s); if (c.name()) out += " as " + std::string { *c.name() }; out += ","; }
                return {};
            }
            case kind::write: {
                auto& x = static_cast<tr::write const&>(e);
                print(x.operator_kind()); out += ",";
                auto* t = source(x.destination());
                out += " keys "; for (auto&& c : x.keys()) { use(c.source(), s); out += "->"; column(c.destination(), t); out += ","; }
                out += " columns "; for (auto&& c : x.columns()) { use(c.source(), s); out += "->"; column(c.destination(), t); out += ","; }
                return {};
            }
            case kind::join_relation: {
                auto& x = static_cast<tr::intermediate::join const&>(e);
                print(x.operator_kind()); out += ",";
                if (x.condition()) scalar(x.condition().get(), s);
                if (x.operator_kind() == tr::join_kind::semi || x.operator_kind() == tr::join_kind::anti) return in.empty() ? scope {} : *in[0];
                return flow();
            }
            case kind::aggregate_relation: {
                auto& x = static_cast<tr::intermediate::aggregate const&>(e);
                scope r {};
                for (auto&& k : x.group_keys()) { use(k, s); r.insert(std::addressof(k.entity())); out += ","; }
                out += ";";
                for (auto&& c : x.columns()) {
                    print(c.function()); out += "(";
                    for (auto&& a : c.arguments()) { use(a, s); out += ","; }
                    out += ")->"; def(c.destination(), r); out += ",";
                    auto* f = c.function() ? dynamic_cast<yb::aggregate_function_info const*>(std::addressof(c.function().entity())) : nullptr;
                    if (!f) bad("an aggregate function is not resolved");
                    else if (f->get().shared_parameter_types().size() != c.arguments().size()) bad("an aggregate function is called with a wrong number of arguments");
                }
                return r;
            }
            case kind::distinct_relation: { for (auto&& k : static_cast<tr::intermediate::distinct const&>(e).group_keys()) { use(k, s); out += ","; } return flow(); }
            case kind::limit_relation: {
                auto& x = static_cast<tr::intermediate::limit const&>(e);
                out += x.count() ? std::to_string(*x.count()) : "-";
                for (auto&& k : x.group_keys()) { use(k, s); out += ","; }
                out += ";";
                for (auto&& k : x.sort_keys()) { use(k.variable(), s); print(k.direction()); out += ","; }
                return flow();
            }
            case kind::union_relation: {
                auto& x = static_cast<tr::intermediate::union_ const&>(e);
                print(x.quantifier()); out += ",";
                scope r {};
                for (auto&& m : x.mappings()) {
                    if (m.left() && in.size() > 0) use(*m.left(), *in[0]); else out += "-";
                    out += "|";
                    if (m.right() && in.size() > 1) use(*m.right(), *in[1]); else out += "-";
                    out += "->"; def(m.destination(), r); out += ",";
                }
                return r;
            }
            case kind::intersection_relation: return pairs(static_cast<tr::intermediate::intersection const&>(e), in);
            case kind::difference_relation: return pairs(static_cast<tr::intermediate::difference const&>(e), in);
            case kind::extension: {
                auto& x = static_cast<tr::extension const&>(e);
                if (x.extension_id() != yr::subquery::extension_tag) { bad("unknown extension of relations"); return {}; }
                auto& q = static_cast<yr::subquery const&>(e);
                out += q.is_clone() ? "clone " : "";
                auto o = graph(q.query_graph(), outer, true);
                return mapping(q.mappings(), o);
            }
            default: bad("unexpected kind of relation"); return {};
        }
    }
    template<class T> scope pairs(T const& x, std::vector<scope const*> const& in) {
        print(x.quantifier()); out += ",";
        for (auto&& m : x.group_key_pairs()) {
            if (in.size() > 0) use(m.left(), *in[0]);
            out += "|";
            if (in.size() > 1) use(m.right(), *in[1]);
            out += ",";
        }
        return in.empty() ? scope {} : *in[0];
    }

    /// a connected graph without cycles, with a single end; returns what is available there
    scope graph(tr::graph_type const& g, scope const& outer, bool sub) {
        std::unordered_map<tr::expression const*, place> places {};
        for (auto&& e : g) places[std::addressof(e)];
        if (g.empty()) { bad("a plan is empty"); out += "{}"; return {}; }
        std::vector<tr::expression const*> ends {};
        std::size_t open = 0;
        for (auto&& e : g) {
            for (auto&& p : e.input_ports()) {
                if (!p.opposite()) bad("an input of an expression is not connected");
                else if (places.count(std::addressof(p.opposite()->owner())) == 0) bad("an expression is connected with one outside of its plan");
                else if (p.opposite()->opposite().get() != std::addressof(p)) bad("a connection is not symmetric");
            }
            bool end = true;
            for (auto&& p : e.output_ports()) {
                if (p.opposite()) { end = false; if (places.count(std::addressof(p.opposite()->owner())) == 0) bad("an expression is connected with one outside of its plan"); }
                else ++open;
            }
            if (end) ends.push_back(std::addressof(e));
        }
        if (ends.size() != 1) bad("a plan has " + std::to_string(ends.size()) + " ends");
        if (open != (sub ? 1U : 0U)) bad("a " + std::string { sub ? "subquery" : "plan" } + " has " + std::to_string(open) + " open outputs");
        out += "{";
        scope result {};
        std::size_t count = 0;
        for (auto* e : ends) result = visit(*e, places, outer, count);
        if (count != places.size()) bad("a plan has parts which do not contribute to its result");
        out += "}";
        return result;
    }
    scope visit(tr::expression const& e, std::unordered_map<tr::expression const*, place>& places, scope const& outer, std::size_t& count) {
        auto it = places.find(std::addressof(e));
        if (it == places.end()) { bad("an expression is connected with one outside of its plan"); return {}; }
        auto& p = it->second;
        if (p.state == 1) { bad("a plan has a cycle"); return {}; }
        if (p.state == 2) return p.avail;
        p.state = 1;
        std::vector<scope> in {};
        std::vector<std::size_t> from {};
        for (auto&& i : e.input_ports()) {
            if (!i.opposite()) { in.emplace_back(); from.push_back(~0UL); continue; }
            auto&& o = i.opposite()->owner();
            in.push_back(visit(o, places, outer, count));
            auto x = places.find(std::addressof(o));
            from.push_back(x == places.end() ? ~0UL : x->second.id);
        }
        p.id = count++;
        ++nodes;
        std::ostringstream k {};
        k << e.kind();
        out += "\n n" + std::to_string(p.id) + " " + k.str();
        region(e.region());
        out += "(";
        std::vector<scope const*> ptr {};
        for (auto&& x : in) ptr.push_back(std::addressof(x));
        p.avail = relation(e, ptr, outer);
        out += ") <-";
        for (auto f : from) out += " n" + std::to_string(f);
        p.state = 2;
        return p.avail;
    }

    void statement(::takatori::statement::statement const& s) {
        std::ostringstream k {};
        k << s.kind();
        out += "statement " + k.str();
        region(s.region());
        if (s.kind() == ::takatori::statement::statement_kind::write) {
            auto& w = static_cast<::takatori::statement::write const&>(s);
            std::ostringstream o {};
            o << w.operator_kind();
            out += " " + o.str() + " ";
            auto* t = source(w.destination());
            for (auto&& c : w.columns()) { column(c, t); out += ","; }
            for (auto&& x : w.tuples()) {
                out += "\n ";
                list(x.elements(), {});
                if (x.elements().size() != w.columns().size()) bad("a tuple to write has a wrong number of elements");
            }
        } else {
            out += " ";
            print(s);
        }
    }

private:
    std::unordered_map<void const*, std::size_t> ids_ {};
};

void walk(walker& w, analyzer::sql_analyzer_result const& r, bool message) {
    switch (r.kind()) {
        case sql_analyzer_result_kind::diagnostics: {
            auto&& l = r.element<sql_analyzer_result_kind::diagnostics>();
            w.out += "diagnostics";
            if (l.empty()) w.bad("an erroneous result has no diagnostics");
            for (auto&& d : l) {
                w.out += "\n " + std::string { to_string_view(d.code()) };
                w.region(d.location());
                if (message) w.out += " " + d.message();
                if (to_string_view(d.code()).empty()) w.bad("a diagnostic has an undefined code");
                if (d.message().empty()) w.bad("a diagnostic has no message");
            }
            break;
        }
        case sql_analyzer_result_kind::execution_plan:
            w.out += "plan ";
            w.graph(r.element<sql_analyzer_result_kind::execution_plan>(), {}, false);
            break;
        case sql_analyzer_result_kind::statement:
            w.statement(r.element<sql_analyzer_result_kind::statement>());
            break;
    }
}

} // namespace

std::string canon(analyzer::sql_analyzer_result const& r, bool message) {
    walker w {};
    walk(w, r, message);
    return w.out;
}

std::string canon_named(analyzer::sql_analyzer_result const& r, std::function<std::string(::takatori::document::region const&)> const& namer, bool message) {
    walker w {};
    w.namer = namer;
    walk(w, r, message);
    return w.out;
}

std::string check_well_formed(analyzer::sql_analyzer_result const& r, ::takatori::document::document const* doc) {
    walker w {};
    w.document = doc;
    w.any_region = false;
    if (doc) {
        auto* b = dynamic_cast<::takatori::document::basic_document const*>(doc);
        w.text_size = b ? b->contents(0, b->size()).size() : 0;
    }
    walk(w, r, true);
    rt::count(c_nodes_checked, w.nodes);
    rt::count(c_variables, w.variables);
    if (w.problem.empty()) return {};
    return w.problem + "\n  result: " + w.out.substr(0, 4000);
}

} // namespace sim
