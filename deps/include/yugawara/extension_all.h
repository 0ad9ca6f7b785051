#pragma once
// Stand-in for yugawara/extension/**.h
#include <yugawara/binding_all.h>

namespace yugawara::extension {

namespace td = ::takatori::descriptor;
namespace tr = ::takatori::relation;
namespace ts = ::takatori::scalar;
namespace tu = ::takatori::util;

namespace details {
/// finds the unique output port which is not connected
template<class G>
inline auto find_output(G& g) -> decltype(std::addressof(g.begin()->output_ports()[0])) {
    decltype(std::addressof(g.begin()->output_ports()[0])) r { nullptr };
    for (auto&& e : g) {
        for (auto&& p : e.output_ports()) {
            if (!p.opposite()) {
                if (r) return nullptr;
                r = std::addressof(p);
            }
        }
    }
    return r;
}
inline tr::graph_type clone(tr::graph_type const& g) { tr::graph_type r {}; tr::merge_into(g, r); return r; }
} // namespace details

namespace scalar {

using parameter_element = tr::details::mapping_element;

#define YUGAWARA_STUB_GRAPH \
    [[nodiscard]] tr::graph_type& query_graph() noexcept { return graph_; } \
    [[nodiscard]] tr::graph_type const& query_graph() const noexcept { return graph_; } \
    [[nodiscard]] tu::optional_ptr<tr::expression::output_port_type> find_output_port() noexcept { return tu::optional_ptr<tr::expression::output_port_type> { ::yugawara::extension::details::find_output(graph_) }; } \
    [[nodiscard]] tu::optional_ptr<tr::expression::output_port_type const> find_output_port() const noexcept { return tu::optional_ptr<tr::expression::output_port_type const> { ::yugawara::extension::details::find_output(graph_) }; }
#define YUGAWARA_STUB_PARAMETERS \
    [[nodiscard]] std::vector<parameter_type>& parameters() noexcept { return parameters_; } \
    [[nodiscard]] std::vector<parameter_type> const& parameters() const noexcept { return parameters_; }
#define YUGAWARA_STUB_SCALAR(T, ID) \
    static constexpr extension_id_type extension_tag = ID; \
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; } \
    T(tu::clone_tag_t, T const& o) : T(o) {} \
    T(tu::clone_tag_t, T&& o) : T(std::move(o)) {} \
    [[nodiscard]] T* clone() const& override { return new T(*this); } \
    [[nodiscard]] T* clone() && override { return new T(std::move(*this)); } \
    ~T() override = default; \
    friend bool operator==(T const& a, T const& b) noexcept { return a.eq(b); } \
    friend bool operator!=(T const& a, T const& b) noexcept { return !a.eq(b); } \
protected: \
    [[nodiscard]] bool extension_equals(ts::extension const& o) const noexcept override { return o.extension_id() == extension_tag && eq(static_cast<T const&>(o)); } \
public:

class subquery final : public ts::extension {
public:
    using parameter_type = parameter_element;
    YUGAWARA_STUB_SCALAR(subquery, 2001)
    YUGAWARA_STUB_GRAPH
    YUGAWARA_STUB_PARAMETERS
    subquery(tr::graph_type g, std::vector<parameter_type> p, td::variable o) : graph_ { std::move(g) }, parameters_ { std::move(p) }, output_column_ { std::move(o) } {}
    subquery(subquery const& o) : ts::extension(), graph_ { ::yugawara::extension::details::clone(o.graph_) }, parameters_ { o.parameters_ }, output_column_ { o.output_column_ } { region() = o.region(); }
    subquery(subquery&& o) noexcept : ts::extension(), graph_ { std::move(o.graph_) }, parameters_ { std::move(o.parameters_) }, output_column_ { std::move(o.output_column_) } { region() = o.region(); }
    [[nodiscard]] td::variable& output_column() noexcept { return output_column_; }
    [[nodiscard]] td::variable const& output_column() const noexcept { return output_column_; }
protected:
    std::ostream& print_to(std::ostream& o) const override { o << "scalar_subquery(" << graph_ << ", "; tr::details::prv(o, parameters_); return o << ", " << output_column_ << ")"; }
private:
    tr::graph_type graph_;
    std::vector<parameter_type> parameters_;
    td::variable output_column_;
    [[nodiscard]] bool eq(subquery const& o) const noexcept { return std::addressof(o) == this; }
};

class exists final : public ts::extension {
public:
    using parameter_type = parameter_element;
    YUGAWARA_STUB_SCALAR(exists, 2002)
    YUGAWARA_STUB_GRAPH
    YUGAWARA_STUB_PARAMETERS
    exists(tr::graph_type g, std::vector<parameter_type> p) : graph_ { std::move(g) }, parameters_ { std::move(p) } {}
    exists(exists const& o) : ts::extension(), graph_ { ::yugawara::extension::details::clone(o.graph_) }, parameters_ { o.parameters_ } { region() = o.region(); }
    exists(exists&& o) noexcept : ts::extension(), graph_ { std::move(o.graph_) }, parameters_ { std::move(o.parameters_) } { region() = o.region(); }
protected:
    std::ostream& print_to(std::ostream& o) const override { o << "exists(" << graph_ << ", "; tr::details::prv(o, parameters_); return o << ")"; }
private:
    tr::graph_type graph_;
    std::vector<parameter_type> parameters_;
    [[nodiscard]] bool eq(exists const& o) const noexcept { return std::addressof(o) == this; }
};

class quantified_compare final : public ts::extension {
public:
    using parameter_type = parameter_element;
    using operator_kind_type = ts::comparison_operator;
    using quantifier_type = ts::quantifier;
    YUGAWARA_STUB_SCALAR(quantified_compare, 2003)
    YUGAWARA_STUB_GRAPH
    YUGAWARA_STUB_PARAMETERS
    quantified_compare(operator_kind_type k, quantifier_type q, ts::impl::arg left, tr::graph_type g, std::vector<parameter_type> p, td::variable r) :
        k_ { k }, q_ { q }, left_ { left.take() }, graph_ { std::move(g) }, parameters_ { std::move(p) }, right_column_ { std::move(r) } {}
    quantified_compare(quantified_compare const& o) : ts::extension(), k_ { o.k_ }, q_ { o.q_ }, left_ { ts::impl::cp(o.left_) }, graph_ { ::yugawara::extension::details::clone(o.graph_) }, parameters_ { o.parameters_ }, right_column_ { o.right_column_ } { region() = o.region(); }
    quantified_compare(quantified_compare&& o) noexcept : ts::extension(), k_ { o.k_ }, q_ { o.q_ }, left_ { std::move(o.left_) }, graph_ { std::move(o.graph_) }, parameters_ { std::move(o.parameters_) }, right_column_ { std::move(o.right_column_) } { region() = o.region(); }
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return k_; }
    [[nodiscard]] quantifier_type quantifier() const noexcept { return q_; }
    [[nodiscard]] ts::expression& left() noexcept { return *left_; }
    [[nodiscard]] ts::expression const& left() const noexcept { return *left_; }
    [[nodiscard]] tu::ownership_reference<ts::expression> ownership_left() { return tu::ownership_reference<ts::expression> { left_ }; }
    [[nodiscard]] td::variable& right_column() noexcept { return right_column_; }
    [[nodiscard]] td::variable const& right_column() const noexcept { return right_column_; }
protected:
    std::ostream& print_to(std::ostream& o) const override { o << "quantified_compare(" << k_ << ", " << q_ << ", "; ts::impl::pr(o, left_); o << ", " << graph_ << ", "; tr::details::prv(o, parameters_); return o << ", " << right_column_ << ")"; }
private:
    operator_kind_type k_;
    quantifier_type q_;
    std::unique_ptr<ts::expression> left_;
    tr::graph_type graph_;
    std::vector<parameter_type> parameters_;
    td::variable right_column_;
    [[nodiscard]] bool eq(quantified_compare const& o) const noexcept { return std::addressof(o) == this; }
};

class aggregate_function_call final : public ts::extension {
public:
    YUGAWARA_STUB_SCALAR(aggregate_function_call, 2004)
    explicit aggregate_function_call(td::aggregate_function f, ts::impl::args a = {}) : f_ { std::move(f) }, a_ { a.take() } {}
    aggregate_function_call(aggregate_function_call const& o) : ts::extension(), f_ { o.f_ }, a_ { o.a_ } { region() = o.region(); }
    aggregate_function_call(aggregate_function_call&& o) : ts::extension(), f_ { std::move(o.f_) }, a_ { std::move(o.a_) } { region() = o.region(); }
    [[nodiscard]] td::aggregate_function& function() noexcept { return f_; }
    [[nodiscard]] td::aggregate_function const& function() const noexcept { return f_; }
    [[nodiscard]] tu::reference_vector<ts::expression>& arguments() noexcept { return a_; }
    [[nodiscard]] tu::reference_vector<ts::expression> const& arguments() const noexcept { return a_; }
protected:
    std::ostream& print_to(std::ostream& o) const override { return o << "aggregate_function_call(" << f_ << ", " << a_ << ")"; }
private:
    td::aggregate_function f_;
    tu::reference_vector<ts::expression> a_;
    [[nodiscard]] bool eq(aggregate_function_call const& o) const noexcept { return f_ == o.f_ && a_ == o.a_; }
};

} // namespace scalar

namespace relation {

class subquery final : public tr::extension {
public:
    using mapping_type = tr::details::mapping_element;
    static constexpr extension_id_type extension_tag = 3001;
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
    YUGAWARA_STUB_GRAPH
    subquery(tr::graph_type g, std::vector<mapping_type> m, bool is_clone = false) : tr::extension { 0, 1 }, graph_ { std::move(g) }, mappings_ { std::move(m) }, is_clone_ { is_clone } {}
    subquery(tu::clone_tag_t, subquery const& o) : tr::extension { o }, graph_ { ::yugawara::extension::details::clone(o.graph_) }, mappings_ { o.mappings_ }, is_clone_ { o.is_clone_ } {}
    ~subquery() override = default;
    [[nodiscard]] std::vector<mapping_type>& mappings() noexcept { return mappings_; }
    [[nodiscard]] std::vector<mapping_type> const& mappings() const noexcept { return mappings_; }
    [[nodiscard]] bool is_clone() const noexcept { return is_clone_; }
    [[nodiscard]] output_port_type& output() noexcept { return output_ports()[0]; }
    [[nodiscard]] output_port_type const& output() const noexcept { return output_ports()[0]; }
    [[nodiscard]] std::unique_ptr<tr::expression> clone_() const override { return std::make_unique<subquery>(tu::clone_tag, *this); }
    std::ostream& print_to(std::ostream& o) const override { o << "subquery(" << graph_ << ", "; tr::details::prv(o, mappings_); return o << ", clone=" << is_clone_ << ")"; }
protected:
    [[nodiscard]] bool equals(tr::expression const& o) const noexcept override { return std::addressof(o) == this; }
private:
    tr::graph_type graph_;
    std::vector<mapping_type> mappings_;
    bool is_clone_;
};

} // namespace relation
} // namespace yugawara::extension
