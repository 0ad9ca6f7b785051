#pragma once
// Stand-in for yugawara/analyzer/*.h and yugawara/compiled_info.h
#include <yugawara/binding_all.h>
#include <yugawara/extension_all.h>
#include <unordered_map>

namespace yugawara::analyzer {

namespace td = ::takatori::descriptor;
namespace tr = ::takatori::relation;
namespace ts = ::takatori::scalar;
namespace tt = ::takatori::type;
namespace tu = ::takatori::util;

enum class expression_analyzer_code {
    unknown, unsupported_type, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, inconsistent_function_type,
};
inline std::ostream& operator<<(std::ostream& o, expression_analyzer_code c) {
    static constexpr char const* n[] = { "unknown", "unsupported_type", "ambiguous_type", "inconsistent_type", "unresolved_variable", "inconsistent_elements", "inconsistent_function_type" };
    return o << n[static_cast<std::size_t>(c)];
}

class variable_resolution {
public:
    variable_resolution() = default;
    variable_resolution(std::shared_ptr<tt::data const> t) noexcept : t_ { std::move(t) } {} // NOLINT
    variable_resolution(tu::rvalue_ptr<tt::data> t) : t_ { tu::clone_shared(t) } {} // NOLINT
    template<class T, class = std::enable_if_t<std::is_base_of_v<tt::data, T>>>
    variable_resolution(T&& t) : t_ { tu::clone_shared(std::forward<T>(t)) } {} // NOLINT
    variable_resolution(storage::column const& c) : t_ { c.shared_type() } {} // NOLINT
    [[nodiscard]] bool is_resolved() const noexcept { return t_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_resolved(); }
    [[nodiscard]] std::shared_ptr<tt::data const> const& type() const noexcept { return t_; }
    friend bool operator==(variable_resolution const& a, variable_resolution const& b) noexcept { if (!a.t_ || !b.t_) return a.t_ == b.t_; return *a.t_ == *b.t_; }
private:
    std::shared_ptr<tt::data const> t_ {};
};

class variable_mapping {
public:
    [[nodiscard]] variable_resolution const& find(td::variable const& v) const {
        static variable_resolution const empty {};
        if (auto i = m_.find(v); i != m_.end()) return i->second;
        return empty;
    }
    variable_resolution const& bind(td::variable const& v, variable_resolution r, bool overwrite = false) {
        auto i = m_.find(v);
        if (i == m_.end()) return m_.emplace(v, std::move(r)).first->second;
        if (overwrite) i->second = std::move(r);
        else if (!(i->second == r)) tu::throw_exception(std::domain_error("rebind variable"));
        return i->second;
    }
    void unbind(td::variable const& v) { m_.erase(v); }
    void clear() noexcept { m_.clear(); }
    [[nodiscard]] std::size_t size() const noexcept { return m_.size(); }
private:
    std::unordered_map<td::variable, variable_resolution> m_ {};
};

class expression_resolution {
public:
    expression_resolution() = default;
    expression_resolution(std::shared_ptr<tt::data const> t) noexcept : t_ { std::move(t) } {} // NOLINT
    [[nodiscard]] bool is_resolved() const noexcept { return t_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_resolved(); }
    [[nodiscard]] tt::data const& type() const noexcept { return *t_; }
    [[nodiscard]] std::shared_ptr<tt::data const> const& shared_type() const noexcept { return t_; }
private:
    std::shared_ptr<tt::data const> t_ {};
};

/// mapping of the expressions, which are identified by their address (as the real one)
class expression_mapping {
public:
    [[nodiscard]] expression_resolution const& find(ts::expression const& e) const {
        static expression_resolution const empty {};
        if (auto i = m_.find(std::addressof(e)); i != m_.end()) return i->second;
        return empty;
    }
    expression_resolution const& bind(ts::expression const& e, expression_resolution r, bool overwrite = false) {
        auto i = m_.find(std::addressof(e));
        if (i == m_.end()) return m_.emplace(std::addressof(e), std::move(r)).first->second;
        if (overwrite) i->second = std::move(r);
        return i->second;
    }
    void unbind(ts::expression const& e) { m_.erase(std::addressof(e)); }
    void clear() noexcept { m_.clear(); }
    [[nodiscard]] std::size_t size() const noexcept { return m_.size(); }
private:
    std::unordered_map<ts::expression const*, expression_resolution> m_ {};
};

class expression_analyzer {
public:
    using code_type = expression_analyzer_code;
    using diagnostic_type = diagnostic<code_type>;
    using type_repository = util::object_repository<tt::data>;
    using type_ptr = std::shared_ptr<tt::data const>;

    expression_analyzer() : e_ { std::make_shared<expression_mapping>() }, v_ { std::make_shared<variable_mapping>() } {}
    [[nodiscard]] expression_mapping& expressions() noexcept { return *e_; }
    [[nodiscard]] variable_mapping& variables() noexcept { return *v_; }
    [[nodiscard]] expression_mapping const& expressions() const noexcept { return *e_; }
    [[nodiscard]] variable_mapping const& variables() const noexcept { return *v_; }
    [[nodiscard]] tu::maybe_shared_ptr<expression_mapping const> shared_expressions() const noexcept { return std::shared_ptr<expression_mapping const> { e_ }; }
    [[nodiscard]] tu::maybe_shared_ptr<variable_mapping const> shared_variables() const noexcept { return std::shared_ptr<variable_mapping const> { v_ }; }
    [[nodiscard]] bool allow_unresolved() const noexcept { return allow_unresolved_; }
    expression_analyzer& allow_unresolved(bool v) noexcept { allow_unresolved_ = v; return *this; }
    [[nodiscard]] bool has_diagnostics() const noexcept { return !d_.empty(); }
    [[nodiscard]] std::vector<diagnostic_type> const& diagnostics() const noexcept { return d_; }
    void clear_diagnostics() noexcept { d_.clear(); }

    [[nodiscard]] type_ptr resolve(ts::expression const& e, bool validate, type_repository& repo) {
        if (auto&& r = e_->find(e)) return r.shared_type();
        auto t = compute(e, validate, repo);
        if (!t) {
            if (d_.empty()) report(code_type::unknown, "unresolved expression", e.region());
            return {};
        }
        e_->bind(e, expression_resolution { t });
        return t;
    }

    [[nodiscard]] bool resolve(tr::expression const& e, bool validate, bool recursive, type_repository& repo) {
        auto n = d_.size();
        relation(e, validate, recursive, repo);
        return d_.size() == n;
    }

private:
    std::shared_ptr<expression_mapping> e_;
    std::shared_ptr<variable_mapping> v_;
    std::vector<diagnostic_type> d_ {};
    bool allow_unresolved_ { true };

    using K = tt::type_kind;

    void report(code_type c, std::string m, ::takatori::document::region r) { d_.emplace_back(c, std::move(m), r); }

    [[nodiscard]] type_ptr variable(td::variable const& v, type_repository& repo) {
        if (auto&& r = v_->find(v)) return r.type();
        if (v.resolved()) {
            if (auto d = binding::extract_if<variable::declaration>(v); d && d->shared_type()) { v_->bind(v, d->shared_type()); return d->shared_type(); }
            if (auto c = binding::extract_if<storage::column>(v)) { v_->bind(v, c->shared_type()); return c->shared_type(); }
        }
        if (allow_unresolved_) return repo.get(tt::unknown {});
        report(code_type::unresolved_variable, "unresolved variable", v.region());
        return {};
    }

    [[nodiscard]] static bool numeric(tt::data const& t) { return type::numeric_rank(t.kind()) > 0; }
    [[nodiscard]] static bool sequence(tt::data const& t) { return t.kind() == K::character || t.kind() == K::octet; }
    [[nodiscard]] static bool temporal(tt::data const& t) { return t.kind() == K::date || t.kind() == K::time_of_day || t.kind() == K::time_point || t.kind() == K::datetime_interval; }

    /// unifies types, or returns nullptr if they are not
    [[nodiscard]] type_ptr unify(type_ptr const& a, type_ptr const& b, type_repository& repo) {
        if (a->kind() == K::unknown) return b;
        if (b->kind() == K::unknown) return a;
        if (*a == *b) return a;
        if (numeric(*a) && numeric(*b)) {
            if (a->kind() == K::decimal && b->kind() == K::decimal) return repo.get(tt::decimal {});
            auto x = type::numeric_rank(a->kind());
            auto y = type::numeric_rank(b->kind());
            auto&& m = x < y ? b : a;
            if (m->kind() == K::float4 && (x == 5 || y == 5 || x == 4 || y == 4)) return repo.get(tt::float8 {});
            if (m->kind() == K::decimal) return repo.get(tt::decimal {});
            if (type::numeric_rank(m->kind()) < 3) return repo.get(tt::int4 {});
            return m;
        }
        if (a->kind() == K::character && b->kind() == K::character) return repo.get(tt::character { tt::varying });
        if (a->kind() == K::octet && b->kind() == K::octet) return repo.get(tt::octet { tt::varying });
        return {};
    }

    [[nodiscard]] type_ptr boolean(type_repository& repo) { return repo.get(tt::boolean {}); }

    [[nodiscard]] bool require(type_ptr const& t, bool ok, bool validate, ::takatori::document::region r) {
        if (!validate || ok || t->kind() == K::unknown) return true;
        tu::string_builder b {};
        report(code_type::inconsistent_type, b << "inconsistent type: " << *t << tu::string_builder::to_string, r);
        return false;
    }

    template<class Seq>
    [[nodiscard]] type_ptr unify_all(Seq const& types, bool validate, ::takatori::document::region r, type_repository& repo) {
        type_ptr t = repo.get(tt::unknown {});
        for (auto&& x : types) {
            auto u = unify(t, x, repo);
            if (!u) {
                if (validate) { report(code_type::ambiguous_type, "ambiguous type", r); return {}; }
                return repo.get(tt::unknown {});
            }
            t = std::move(u);
        }
        return t;
    }

    [[nodiscard]] type_ptr compute(ts::expression const& e, bool validate, type_repository& repo) {
        using kind = ts::expression_kind;
        switch (e.kind()) {
            case kind::immediate: return static_cast<ts::immediate const&>(e).shared_type();
            case kind::variable_reference: {
                auto n = d_.size();
                auto t = variable(static_cast<ts::variable_reference const&>(e).variable(), repo);
                if (d_.size() != n) return {};
                return t;
            }
            case kind::unary: {
                auto&& x = static_cast<ts::unary const&>(e);
                auto t = resolve(x.operand(), validate, repo);
                if (!t) return {};
                switch (x.operator_kind()) {
                    case ts::unary_operator::plus:
                    case ts::unary_operator::sign_inversion:
                        if (!require(t, numeric(*t) || t->kind() == K::datetime_interval, validate, e.region())) return {};
                        if (numeric(*t) && type::numeric_rank(t->kind()) < 3) return repo.get(tt::int4 {});
                        return t;
                    case ts::unary_operator::conditional_not:
                        if (!require(t, t->kind() == K::boolean, validate, e.region())) return {};
                        return boolean(repo);
                    case ts::unary_operator::length:
                        if (!require(t, sequence(*t), validate, e.region())) return {};
                        return repo.get(tt::int4 {});
                    case ts::unary_operator::is_true:
                    case ts::unary_operator::is_false:
                    case ts::unary_operator::is_unknown:
                        if (!require(t, t->kind() == K::boolean, validate, e.region())) return {};
                        return boolean(repo);
                    default: return boolean(repo);
                }
            }
            case kind::cast: {
                auto&& x = static_cast<ts::cast const&>(e);
                if (!resolve(x.operand(), validate, repo)) return {};
                return x.shared_type();
            }
            case kind::binary: {
                auto&& x = static_cast<ts::binary const&>(e);
                auto l = resolve(x.left(), validate, repo);
                if (!l) return {};
                auto r = resolve(x.right(), validate, repo);
                if (!r) return {};
                switch (x.operator_kind()) {
                    case ts::binary_operator::conditional_and:
                    case ts::binary_operator::conditional_or:
                        if (!require(l, l->kind() == K::boolean, validate, x.left().region())) return {};
                        if (!require(r, r->kind() == K::boolean, validate, x.right().region())) return {};
                        return boolean(repo);
                    case ts::binary_operator::concat: {
                        if (!require(l, sequence(*l), validate, x.left().region())) return {};
                        if (!require(r, sequence(*r) && (l->kind() == r->kind() || l->kind() == K::unknown), validate, x.right().region())) return {};
                        auto k = l->kind() == K::unknown ? r->kind() : l->kind();
                        if (k == K::octet) return repo.get(tt::octet { tt::varying });
                        return repo.get(tt::character { tt::varying });
                    }
                    default: {
                        if (!require(l, numeric(*l) || temporal(*l), validate, x.left().region())) return {};
                        if (!require(r, numeric(*r) || temporal(*r), validate, x.right().region())) return {};
                        if (temporal(*l) || temporal(*r)) return temporal(*l) && l->kind() != K::datetime_interval ? l : r;
                        auto t = unify(l, r, repo);
                        if (!t) {
                            if (validate) { report(code_type::inconsistent_type, "inconsistent type", e.region()); return {}; }
                            return repo.get(tt::unknown {});
                        }
                        if (numeric(*t) && type::numeric_rank(t->kind()) < 3) return repo.get(tt::int4 {});
                        return t;
                    }
                }
            }
            case kind::compare: {
                auto&& x = static_cast<ts::compare const&>(e);
                auto l = resolve(x.left(), validate, repo);
                if (!l) return {};
                auto r = resolve(x.right(), validate, repo);
                if (!r) return {};
                if (validate && !unify(l, r, repo)) { report(code_type::inconsistent_type, "inconsistent comparison", e.region()); return {}; }
                return boolean(repo);
            }
            case kind::match: {
                auto&& x = static_cast<ts::match const&>(e);
                if (!resolve(x.input(), validate, repo) || !resolve(x.pattern(), validate, repo)) return {};
                if (x.optional_escape() && !resolve(x.escape(), validate, repo)) return {};
                return boolean(repo);
            }
            case kind::conditional: {
                auto&& x = static_cast<ts::conditional const&>(e);
                std::vector<type_ptr> types {};
                for (auto&& a : x.alternatives()) {
                    auto c = resolve(a.condition(), validate, repo);
                    if (!c) return {};
                    if (!require(c, c->kind() == K::boolean, validate, a.condition().region())) return {};
                    auto b = resolve(a.body(), validate, repo);
                    if (!b) return {};
                    types.emplace_back(std::move(b));
                }
                if (auto d = x.default_expression()) {
                    auto b = resolve(*d, validate, repo);
                    if (!b) return {};
                    types.emplace_back(std::move(b));
                }
                return unify_all(types, validate, e.region(), repo);
            }
            case kind::coalesce: {
                std::vector<type_ptr> types {};
                for (auto&& a : static_cast<ts::coalesce const&>(e).alternatives()) {
                    auto b = resolve(a, validate, repo);
                    if (!b) return {};
                    types.emplace_back(std::move(b));
                }
                return unify_all(types, validate, e.region(), repo);
            }
            case kind::let: {
                auto&& x = static_cast<ts::let const&>(e);
                for (auto&& v : x.variables()) {
                    auto t = resolve(v.value(), validate, repo);
                    if (!t) return {};
                    v_->bind(v.variable(), t, true);
                }
                return resolve(x.body(), validate, repo);
            }
            case kind::function_call: {
                auto&& x = static_cast<ts::function_call const&>(e);
                for (auto&& a : x.arguments()) if (!resolve(a, validate, repo)) return {};
                return binding::extract(x.function()).shared_return_type();
            }
            case kind::extension: {
                using namespace extension::scalar;
                auto&& x = static_cast<ts::extension const&>(e);
                switch (x.extension_id()) {
                    case subquery::extension_tag: {
                        auto&& q = static_cast<subquery const&>(x);
                        for (auto&& p : q.parameters()) if (!alias(p)) return {};
                        auto n = d_.size();
                        auto t = variable(q.output_column(), repo);
                        if (d_.size() != n) return {};
                        return t;
                    }
                    case exists::extension_tag: return boolean(repo);
                    case quantified_compare::extension_tag: {
                        auto&& q = static_cast<quantified_compare const&>(x);
                        auto l = resolve(q.left(), validate, repo);
                        if (!l) return {};
                        auto n = d_.size();
                        auto r = variable(q.right_column(), repo);
                        if (d_.size() != n) return {};
                        if (validate && !unify(l, r, repo)) { report(code_type::inconsistent_type, "inconsistent comparison", e.region()); return {}; }
                        return boolean(repo);
                    }
                    case aggregate_function_call::extension_tag: {
                        auto&& q = static_cast<aggregate_function_call const&>(x);
                        for (auto&& a : q.arguments()) if (!resolve(a, validate, repo)) return {};
                        return binding::extract(q.function()).shared_return_type();
                    }
                    default: break;
                }
                report(code_type::unknown, "unsupported scalar expression extension", e.region());
                return {};
            }
        }
        std::abort();
    }

    template<class M>
    bool alias(M const& m) {
        auto&& r = v_->find(m.source());
        if (!r) return true;
        auto copy = r;
        v_->bind(m.destination(), std::move(copy), true);
        return true;
    }

    void relation(tr::expression const& e, bool validate, bool recursive, type_repository& repo) {
        using kind = tr::expression_kind;
        if (recursive) {
            for (auto&& p : e.input_ports()) if (auto o = p.opposite()) relation(o->owner(), validate, true, repo);
        }
        switch (e.kind()) {
            case kind::scan:
                for (auto&& c : static_cast<tr::scan const&>(e).columns()) {
                    if (auto t = variable(c.source(), repo)) v_->bind(c.destination(), std::move(t), true);
                }
                break;
            case kind::values: {
                auto&& x = static_cast<tr::values const&>(e);
                for (std::size_t i = 0; i < x.columns().size(); ++i) {
                    std::vector<type_ptr> types {};
                    for (auto&& row : x.rows()) {
                        if (row.elements().size() != x.columns().size()) { report(code_type::inconsistent_elements, "inconsistent number of elements", e.region()); return; }
                        auto t = resolve(row.elements()[i], validate, repo);
                        if (!t) return;
                        types.emplace_back(std::move(t));
                    }
                    auto t = unify_all(types, true, e.region(), repo);
                    if (!t) return;
                    v_->bind(x.columns()[i], std::move(t), true);
                }
                break;
            }
            case kind::filter: {
                auto&& x = static_cast<tr::filter const&>(e);
                auto t = resolve(x.condition(), validate, repo);
                if (t) (void) require(t, t->kind() == K::boolean, validate, x.condition().region());
                break;
            }
            case kind::project:
                for (auto&& c : static_cast<tr::project const&>(e).columns()) {
                    auto t = resolve(c.value(), validate, repo);
                    if (t) v_->bind(c.variable(), std::move(t), true);
                }
                break;
            case kind::apply: {
                auto&& x = static_cast<tr::apply const&>(e);
                for (auto&& a : x.arguments()) if (!resolve(a, validate, repo)) return;
                auto&& ret = binding::extract(x.function()).return_type();
                if (ret.kind() != K::table) { report(code_type::inconsistent_function_type, "not a table-valued function", e.region()); return; }
                auto&& tab = static_cast<tt::table const&>(ret);
                for (auto&& c : x.columns()) {
                    if (c.position() >= tab.columns().size()) { report(code_type::inconsistent_elements, "invalid column position", e.region()); return; }
                    v_->bind(c.variable(), tab.columns()[c.position()].shared_type(), true);
                }
                break;
            }
            case kind::join_relation: {
                auto&& x = static_cast<tr::intermediate::join const&>(e);
                if (auto c = x.condition()) {
                    auto t = resolve(*c, validate, repo);
                    if (t) (void) require(t, t->kind() == K::boolean, validate, c->region());
                }
                break;
            }
            case kind::aggregate_relation:
                for (auto&& c : static_cast<tr::intermediate::aggregate const&>(e).columns()) {
                    v_->bind(c.destination(), binding::extract(c.function()).shared_return_type(), true);
                }
                break;
            case kind::union_relation:
                for (auto&& m : static_cast<tr::intermediate::union_ const&>(e).mappings()) {
                    type_ptr t {};
                    auto n = d_.size();
                    if (m.left()) t = variable(*m.left(), repo);
                    if (m.right()) {
                        auto u = variable(*m.right(), repo);
                        if (d_.size() != n) return;
                        t = t ? unify(t, u, repo) : u;
                    }
                    if (d_.size() != n) return;
                    if (!t) { report(code_type::inconsistent_type, "inconsistent union types", e.region()); return; }
                    v_->bind(m.destination(), std::move(t), true);
                }
                break;
            case kind::difference_relation: pairs(static_cast<tr::intermediate::difference const&>(e), e.region(), repo); break;
            case kind::intersection_relation: pairs(static_cast<tr::intermediate::intersection const&>(e), e.region(), repo); break;
            case kind::extension: {
                auto&& x = static_cast<tr::extension const&>(e);
                if (x.extension_id() != extension::relation::subquery::extension_tag) { report(code_type::unknown, "unsupported relation extension", e.region()); return; }
                for (auto&& op : static_cast<extension::relation::subquery const&>(x).query_graph()) {
                    if (op.output_ports().empty() || !op.output_ports()[0].opposite()) relation(op, validate, true, repo);
                }
                for (auto&& m : static_cast<extension::relation::subquery const&>(x).mappings()) {
                    auto t = variable(m.source(), repo);
                    if (t) v_->bind(m.destination(), std::move(t), true);
                }
                break;
            }
            default: break;
        }
    }

    template<class T>
    void pairs(T const& x, ::takatori::document::region r, type_repository& repo) {
        for (auto&& p : x.group_key_pairs()) {
            auto a = variable(p.left(), repo);
            auto b = variable(p.right(), repo);
            if (!a || !b) return;
            if (!unify(a, b, repo)) { report(code_type::inconsistent_type, "inconsistent types", r); return; }
        }
    }
};

} // namespace yugawara::analyzer

namespace yugawara {

class compiled_info {
public:
    compiled_info() = default;
    compiled_info(std::shared_ptr<analyzer::expression_mapping const> e, std::shared_ptr<analyzer::variable_mapping const> v) noexcept : e_ { std::move(e) }, v_ { std::move(v) } {}
    [[nodiscard]] ::takatori::type::data const& type_of(::takatori::scalar::expression const& e) const { return e_->find(e).type(); }
    [[nodiscard]] ::takatori::type::data const& type_of(::takatori::descriptor::variable const& v) const { return *v_->find(v).type(); }
private:
    std::shared_ptr<analyzer::expression_mapping const> e_ {};
    std::shared_ptr<analyzer::variable_mapping const> v_ {};
};

} // namespace yugawara
