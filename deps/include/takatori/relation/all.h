#pragma once
// Stand-in for takatori/graph/*.h and takatori/relation/**.h
#include <takatori/util/std_all.h>
#include <takatori/util/callback.h>
#include <takatori/util/clonable.h>
#include <takatori/util/exception.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/ownership_reference.h>
#include <takatori/util/reference_vector.h>
#include <takatori/util/sequence_view.h>
#include <takatori/document/region.h>
#include <takatori/descriptor/all.h>
#include <takatori/scalar/all.h>
#include <deque>
#include <list>

namespace takatori::relation {

enum class expression_kind {
    find, scan, values,
    join_relation, join_find, join_scan,
    apply, project, filter, buffer, identify,
    aggregate_relation, distinct_relation, limit_relation,
    union_relation, intersection_relation, difference_relation,
    emit, write, escape, extension,
};
inline std::ostream& operator<<(std::ostream& o, expression_kind k) {
    static constexpr char const* n[] = {
        "find", "scan", "values", "join_relation", "join_find", "join_scan", "apply", "project", "filter", "buffer", "identify",
        "aggregate_relation", "distinct_relation", "limit_relation", "union_relation", "intersection_relation", "difference_relation",
        "emit", "write", "escape", "extension" };
    return o << n[static_cast<std::size_t>(k)];
}

class expression;

template<bool Output>
class port {
public:
    using opposite_type = port<!Output>;
    port(expression& owner, std::size_t index) noexcept : owner_ { std::addressof(owner) }, index_ { index } {}
    port(port const&) = delete;
    port& operator=(port const&) = delete;
    ~port() { disconnect_all(); }
    [[nodiscard]] expression& owner() noexcept { return *owner_; }
    [[nodiscard]] expression const& owner() const noexcept { return *owner_; }
    [[nodiscard]] std::size_t index() const noexcept { return index_; }
    [[nodiscard]] util::optional_ptr<opposite_type> opposite() noexcept { return util::optional_ptr<opposite_type> { o_ }; }
    [[nodiscard]] util::optional_ptr<opposite_type const> opposite() const noexcept { return util::optional_ptr<opposite_type const> { o_ }; }
    void connect_to(opposite_type& o) {
        if (o_ == std::addressof(o)) return;
        if (o_ != nullptr || o.o_ != nullptr) util::throw_exception(std::domain_error("the port is already connected"));
        o_ = std::addressof(o);
        o.o_ = this;
    }
    void disconnect_from(opposite_type& o) noexcept { if (o_ == std::addressof(o)) { o.o_ = nullptr; o_ = nullptr; } }
    void disconnect_all() noexcept { if (o_) { o_->o_ = nullptr; o_ = nullptr; } }
    void reconnect_to(opposite_type& o) { disconnect_all(); o.disconnect_all(); connect_to(o); }
    friend port& operator<<(port& a, opposite_type& b) { a.connect_to(b); return a; }
    friend port& operator>>(port& a, opposite_type& b) { a.connect_to(b); return a; }
private:
    friend opposite_type;
    expression* owner_;
    std::size_t index_;
    opposite_type* o_ { nullptr };
};

class expression {
public:
    using input_port_type = port<false>;
    using output_port_type = port<true>;
    expression(std::size_t in, std::size_t out) {
        for (std::size_t i = 0; i < in; ++i) in_.emplace_back(*this, i);
        for (std::size_t i = 0; i < out; ++i) out_.emplace_back(*this, i);
    }
    expression(expression const& o) : expression { o.in_.size(), o.out_.size() } { region_ = o.region_; }
    expression& operator=(expression const&) = delete;
    virtual ~expression() = default;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
    [[nodiscard]] std::deque<input_port_type>& input_ports() noexcept { return in_; }
    [[nodiscard]] std::deque<input_port_type> const& input_ports() const noexcept { return in_; }
    [[nodiscard]] std::deque<output_port_type>& output_ports() noexcept { return out_; }
    [[nodiscard]] std::deque<output_port_type> const& output_ports() const noexcept { return out_; }
    [[nodiscard]] virtual std::unique_ptr<expression> clone_() const = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
    friend std::ostream& operator<<(std::ostream& o, expression const& v) { return v.print_to(o); }
protected:
    [[nodiscard]] virtual bool equals(expression const& other) const noexcept = 0;
private:
    std::deque<input_port_type> in_ {};
    std::deque<output_port_type> out_ {};
    document::region region_ {};
};

class graph_type {
    using holder = std::list<std::unique_ptr<expression>>;
public:
    using value_type = expression;
    template<class T, class It>
    class iter {
    public:
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = expression;
        using difference_type = std::ptrdiff_t;
        using pointer = T*;
        using reference = T&;
        iter() = default;
        explicit iter(It i) : i_ { i } {}
        reference operator*() const { return **i_; }
        pointer operator->() const { return i_->get(); }
        iter& operator++() { ++i_; return *this; }
        iter operator++(int) { auto r = *this; ++i_; return r; }
        iter& operator--() { --i_; return *this; }
        friend bool operator==(iter a, iter b) { return a.i_ == b.i_; }
        friend bool operator!=(iter a, iter b) { return a.i_ != b.i_; }
        It raw() const { return i_; }
    private:
        It i_ {};
    };
    using iterator = iter<expression, holder::iterator>;
    using const_iterator = iter<expression const, holder::const_iterator>;
    graph_type() = default;
    graph_type(graph_type const&) = delete;
    graph_type& operator=(graph_type const&) = delete;
    graph_type(graph_type&& o) noexcept { e_.swap(o.e_); }
    graph_type& operator=(graph_type&& o) noexcept { if (this != &o) { e_.clear(); e_.swap(o.e_); } return *this; }
    ~graph_type() = default;
    template<class T, class... Args> T& emplace(Args&&... args) {
        auto p = std::make_unique<T>(std::forward<Args>(args)...);
        T& r = *p;
        e_.emplace_back(std::move(p));
        return r;
    }
    template<class T, class = std::enable_if_t<std::is_base_of_v<expression, T>>> T& insert(std::unique_ptr<T> p) { T& r = *p; e_.emplace_back(std::move(p)); return r; }
    template<class T, class = std::enable_if_t<std::is_base_of_v<expression, std::remove_reference_t<T>> && !std::is_lvalue_reference_v<T>>, class = void>
    T& insert(T&& v) { return insert(std::make_unique<T>(util::clone_tag, std::move(v))); }
    [[nodiscard]] bool empty() const noexcept { return e_.empty(); }
    [[nodiscard]] std::size_t size() const noexcept { return e_.size(); }
    [[nodiscard]] bool contains(expression const& v) const noexcept { for (auto&& p : e_) if (p.get() == std::addressof(v)) return true; return false; }
    void clear() noexcept { e_.clear(); }
    [[nodiscard]] iterator begin() noexcept { return iterator { e_.begin() }; }
    [[nodiscard]] iterator end() noexcept { return iterator { e_.end() }; }
    [[nodiscard]] const_iterator begin() const noexcept { return const_iterator { e_.begin() }; }
    [[nodiscard]] const_iterator end() const noexcept { return const_iterator { e_.end() }; }
    [[nodiscard]] const_iterator cbegin() const noexcept { return begin(); }
    [[nodiscard]] const_iterator cend() const noexcept { return end(); }
    iterator erase(const_iterator i) { return iterator { e_.erase(i.raw()) }; }
    bool erase(expression const& v) { for (auto i = e_.begin(); i != e_.end(); ++i) if (i->get() == std::addressof(v)) { e_.erase(i); return true; } return false; }
    [[nodiscard]] std::unique_ptr<expression> release(expression const& v) {
        for (auto i = e_.begin(); i != e_.end(); ++i) if (i->get() == std::addressof(v)) { auto r = std::move(*i); e_.erase(i); return r; }
        return {};
    }
    friend std::ostream& operator<<(std::ostream& o, graph_type const& g) {
        o << "graph(";
        bool first = true;
        for (auto&& e : g) { if (!first) o << ", "; first = false; o << e; }
        return o << ")";
    }
private:
    holder e_ {};
};

/// copies all vertices of the source (keeping connections) into the destination
inline void merge_into(graph_type const& source, graph_type& destination) {
    std::vector<std::pair<expression const*, expression*>> m {};
    m.reserve(source.size());
    for (auto&& e : source) {
        auto p = e.clone_();
        m.emplace_back(std::addressof(e), p.get());
        destination.insert(std::move(p));
    }
    auto find = [&](expression const* s) -> expression* { for (auto&& [a, b] : m) if (a == s) return b; return nullptr; };
    for (auto&& [s, d] : m) {
        for (std::size_t i = 0; i < s->input_ports().size(); ++i) {
            if (auto o = s->input_ports()[i].opposite()) {
                if (auto* u = find(std::addressof(o->owner()))) d->input_ports()[i].connect_to(u->output_ports()[o->index()]);
            }
        }
    }
}
inline void merge_into(graph_type&& source, graph_type& destination) {
    while (!source.empty()) destination.insert(source.release(*source.begin()));
}

#define TAKATORI_STUB_RELATION(T, K) \
    static constexpr expression_kind tag = expression_kind::K; \
    [[nodiscard]] expression_kind kind() const noexcept override { return tag; } \
    ~T() override = default; \
    T(util::clone_tag_t, T const& o) : T(o) {} \
    [[nodiscard]] std::unique_ptr<expression> clone_() const override { return std::make_unique<T>(util::clone_tag, *this); } \
    friend bool operator==(T const& a, T const& b) noexcept { return a.eq(b); } \
    friend bool operator!=(T const& a, T const& b) noexcept { return !a.eq(b); } \
protected: \
    [[nodiscard]] bool equals(expression const& o) const noexcept override { return o.kind() == tag && eq(static_cast<T const&>(o)); } \
public:
#define TAKATORI_STUB_IN1 \
    [[nodiscard]] input_port_type& input() noexcept { return input_ports()[0]; } \
    [[nodiscard]] input_port_type const& input() const noexcept { return input_ports()[0]; }
#define TAKATORI_STUB_IN2 \
    [[nodiscard]] input_port_type& left() noexcept { return input_ports()[0]; } \
    [[nodiscard]] input_port_type const& left() const noexcept { return input_ports()[0]; } \
    [[nodiscard]] input_port_type& right() noexcept { return input_ports()[1]; } \
    [[nodiscard]] input_port_type const& right() const noexcept { return input_ports()[1]; }
#define TAKATORI_STUB_OUT1 \
    [[nodiscard]] output_port_type& output() noexcept { return output_ports()[0]; } \
    [[nodiscard]] output_port_type const& output() const noexcept { return output_ports()[0]; }
#define TAKATORI_STUB_FIELD(T, name) \
    [[nodiscard]] T& name() noexcept { return name##_; } \
    [[nodiscard]] T const& name() const noexcept { return name##_; }

namespace details {
template<class T> std::ostream& prv(std::ostream& o, std::vector<T> const& v) {
    o << "[";
    bool f = true;
    for (auto&& e : v) { if (!f) o << ", "; f = false; o << e; }
    return o << "]";
}
class mapping_element {
public:
    mapping_element(descriptor::variable s, descriptor::variable d) : s_ { std::move(s) }, d_ { std::move(d) } {}
    [[nodiscard]] descriptor::variable& source() noexcept { return s_; }
    [[nodiscard]] descriptor::variable const& source() const noexcept { return s_; }
    [[nodiscard]] descriptor::variable& destination() noexcept { return d_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
    friend bool operator==(mapping_element const& a, mapping_element const& b) noexcept { return a.s_ == b.s_ && a.d_ == b.d_; }
    friend bool operator!=(mapping_element const& a, mapping_element const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, mapping_element const& v) { return o << v.s_ << "->" << v.d_; }
private:
    descriptor::variable s_;
    descriptor::variable d_;
};
} // namespace details

enum class endpoint_kind { unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive };
inline std::ostream& operator<<(std::ostream& o, endpoint_kind k) { return o << static_cast<int>(k); }
enum class join_kind { inner, left_outer, left_outer_at_most_one, full_outer, semi, anti };
inline std::ostream& operator<<(std::ostream& o, join_kind k) { static constexpr char const* n[] = { "inner", "left_outer", "left_outer_at_most_one", "full_outer", "semi", "anti" }; return o << n[static_cast<std::size_t>(k)]; }
enum class apply_kind { cross, outer };
inline std::ostream& operator<<(std::ostream& o, apply_kind k) { return o << (k == apply_kind::cross ? "cross" : "outer"); }
enum class set_quantifier { all, distinct };
inline std::ostream& operator<<(std::ostream& o, set_quantifier k) { return o << (k == set_quantifier::all ? "all" : "distinct"); }
enum class sort_direction { ascendant, descendant };
inline std::ostream& operator<<(std::ostream& o, sort_direction k) { return o << (k == sort_direction::ascendant ? "ascendant" : "descendant"); }
enum class write_kind { insert, insert_overwrite, insert_skip, update, delete_ };
inline std::ostream& operator<<(std::ostream& o, write_kind k) { static constexpr char const* n[] = { "insert", "insert_overwrite", "insert_skip", "update", "delete" }; return o << n[static_cast<std::size_t>(k)]; }

class endpoint {
public:
    endpoint() = default;
    [[nodiscard]] endpoint_kind kind() const noexcept { return endpoint_kind::unbound; }
    [[nodiscard]] std::vector<int> const& keys() const noexcept { static std::vector<int> const e {}; return e; }
    [[nodiscard]] explicit operator bool() const noexcept { return false; }
    friend bool operator==(endpoint const&, endpoint const&) noexcept { return true; }
    friend bool operator!=(endpoint const&, endpoint const&) noexcept { return false; }
    friend std::ostream& operator<<(std::ostream& o, endpoint const&) { return o << "unbound"; }
};

class scan final : public expression {
public:
    using column = details::mapping_element;
    using endpoint = relation::endpoint;
    TAKATORI_STUB_RELATION(scan, scan)
    TAKATORI_STUB_OUT1
    scan(descriptor::relation source, std::vector<column> columns, endpoint lower = {}, endpoint upper = {}, std::optional<std::size_t> limit = {}) :
        expression { 0, 1 }, source_ { std::move(source) }, columns_ { std::move(columns) }, lower_ { lower }, upper_ { upper }, limit_ { limit } {}
    TAKATORI_STUB_FIELD(descriptor::relation, source)
    TAKATORI_STUB_FIELD(std::vector<column>, columns)
    TAKATORI_STUB_FIELD(endpoint, lower)
    TAKATORI_STUB_FIELD(endpoint, upper)
    [[nodiscard]] std::optional<std::size_t> const& limit() const noexcept { return limit_; }
    std::ostream& print_to(std::ostream& o) const override { o << "scan(" << source_ << ", "; return details::prv(o, columns_) << ")"; }
private:
    descriptor::relation source_;
    std::vector<column> columns_;
    endpoint lower_;
    endpoint upper_;
    std::optional<std::size_t> limit_;
    scan(scan const&) = default;
    [[nodiscard]] bool eq(scan const& o) const noexcept { return source_ == o.source_ && columns_ == o.columns_ && limit_ == o.limit_; }
};

class values final : public expression {
public:
    using column = descriptor::variable;
    class row {
    public:
        explicit row(util::reference_vector<scalar::expression> e) : e_ { std::move(e) } {}
        row(std::initializer_list<util::rvalue_reference_wrapper<scalar::expression>> e) { for (auto&& x : e) e_.push_back(util::clone_unique(x.get())); }
        [[nodiscard]] util::reference_vector<scalar::expression>& elements() noexcept { return e_; }
        [[nodiscard]] util::reference_vector<scalar::expression> const& elements() const noexcept { return e_; }
        friend bool operator==(row const& a, row const& b) noexcept { return a.e_ == b.e_; }
        friend std::ostream& operator<<(std::ostream& o, row const& v) { return o << v.e_; }
    private:
        util::reference_vector<scalar::expression> e_ {};
    };
    TAKATORI_STUB_RELATION(values, values)
    TAKATORI_STUB_OUT1
    values(std::vector<column> columns, std::vector<row> rows) : expression { 0, 1 }, columns_ { std::move(columns) }, rows_ { std::move(rows) } {}
    TAKATORI_STUB_FIELD(std::vector<column>, columns)
    TAKATORI_STUB_FIELD(std::vector<row>, rows)
    std::ostream& print_to(std::ostream& o) const override { o << "values("; details::prv(o, columns_) << ", "; return details::prv(o, rows_) << ")"; }
private:
    std::vector<column> columns_;
    std::vector<row> rows_;
    values(values const&) = default;
    [[nodiscard]] bool eq(values const& o) const noexcept { return columns_ == o.columns_ && rows_ == o.rows_; }
};

class filter final : public expression {
public:
    TAKATORI_STUB_RELATION(filter, filter)
    TAKATORI_STUB_IN1
    TAKATORI_STUB_OUT1
    explicit filter(std::unique_ptr<scalar::expression> c) : expression { 1, 1 }, condition_ { std::move(c) } {}
    explicit filter(scalar::expression&& c) : filter { util::clone_unique(std::move(c)) } {}
    [[nodiscard]] scalar::expression& condition() noexcept { return *condition_; }
    [[nodiscard]] scalar::expression const& condition() const noexcept { return *condition_; }
    [[nodiscard]] util::ownership_reference<scalar::expression> ownership_condition() { return util::ownership_reference<scalar::expression> { condition_ }; }
    std::ostream& print_to(std::ostream& o) const override { return o << "filter(" << *condition_ << ")"; }
private:
    std::unique_ptr<scalar::expression> condition_;
    filter(filter const& o) : expression { o }, condition_ { scalar::impl::cp(o.condition_) } {}
    [[nodiscard]] bool eq(filter const& o) const noexcept { return scalar::impl::eq(condition_, o.condition_); }
};

class project final : public expression {
public:
    class column {
    public:
        column(descriptor::variable variable, std::unique_ptr<scalar::expression> value) : variable_ { std::move(variable) }, value_ { std::move(value) } {}
        column(std::unique_ptr<scalar::expression> value, descriptor::variable variable) : variable_ { std::move(variable) }, value_ { std::move(value) } {}
        column(descriptor::variable variable, scalar::expression&& value) : variable_ { std::move(variable) }, value_ { util::clone_unique(std::move(value)) } {}
        column(column const& o) : variable_ { o.variable_ }, value_ { scalar::impl::cp(o.value_) } {}
        column(column&&) noexcept = default;
        column& operator=(column const& o) { column t { o }; *this = std::move(t); return *this; }
        column& operator=(column&&) noexcept = default;
        ~column() = default;
        [[nodiscard]] descriptor::variable& variable() noexcept { return variable_; }
        [[nodiscard]] descriptor::variable const& variable() const noexcept { return variable_; }
        [[nodiscard]] scalar::expression& value() noexcept { return *value_; }
        [[nodiscard]] scalar::expression const& value() const noexcept { return *value_; }
        [[nodiscard]] util::ownership_reference<scalar::expression> ownership_value() { return util::ownership_reference<scalar::expression> { value_ }; }
        friend bool operator==(column const& a, column const& b) noexcept { return a.variable_ == b.variable_ && scalar::impl::eq(a.value_, b.value_); }
        friend std::ostream& operator<<(std::ostream& o, column const& v) { o << v.variable_ << "="; scalar::impl::pr(o, v.value_); return o; }
    private:
        descriptor::variable variable_;
        std::unique_ptr<scalar::expression> value_;
    };
    TAKATORI_STUB_RELATION(project, project)
    TAKATORI_STUB_IN1
    TAKATORI_STUB_OUT1
    explicit project(std::vector<column> columns) : expression { 1, 1 }, columns_ { std::move(columns) } {}
    TAKATORI_STUB_FIELD(std::vector<column>, columns)
    std::ostream& print_to(std::ostream& o) const override { o << "project("; return details::prv(o, columns_) << ")"; }
private:
    std::vector<column> columns_;
    project(project const&) = default;
    [[nodiscard]] bool eq(project const& o) const noexcept { return columns_ == o.columns_; }
};

namespace details {
class apply_column {
public:
    apply_column(std::size_t position, descriptor::variable variable) : position_ { position }, variable_ { std::move(variable) } {}
    [[nodiscard]] std::size_t position() const noexcept { return position_; }
    [[nodiscard]] descriptor::variable& variable() noexcept { return variable_; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return variable_; }
    friend bool operator==(apply_column const& a, apply_column const& b) noexcept { return a.position_ == b.position_ && a.variable_ == b.variable_; }
    friend std::ostream& operator<<(std::ostream& o, apply_column const& v) { return o << v.position_ << ":" << v.variable_; }
private:
    std::size_t position_;
    descriptor::variable variable_;
};
} // namespace details

class apply final : public expression {
public:
    using operator_kind_type = apply_kind;
    using column_type = details::apply_column;
    TAKATORI_STUB_RELATION(apply, apply)
    TAKATORI_STUB_IN1
    TAKATORI_STUB_OUT1
    apply(operator_kind_type k, descriptor::function f, util::reference_vector<scalar::expression> arguments, std::vector<column_type> columns) :
        expression { 1, 1 }, operator_kind_ { k }, function_ { std::move(f) }, arguments_ { std::move(arguments) }, columns_ { std::move(columns) } {}
    TAKATORI_STUB_FIELD(operator_kind_type, operator_kind)
    TAKATORI_STUB_FIELD(descriptor::function, function)
    TAKATORI_STUB_FIELD(util::reference_vector<scalar::expression>, arguments)
    TAKATORI_STUB_FIELD(std::vector<column_type>, columns)
    std::ostream& print_to(std::ostream& o) const override { o << "apply(" << operator_kind_ << ", " << function_ << ", " << arguments_ << ", "; return details::prv(o, columns_) << ")"; }
private:
    operator_kind_type operator_kind_;
    descriptor::function function_;
    util::reference_vector<scalar::expression> arguments_;
    std::vector<column_type> columns_;
    apply(apply const&) = default;
    [[nodiscard]] bool eq(apply const& o) const noexcept { return operator_kind_ == o.operator_kind_ && function_ == o.function_ && arguments_ == o.arguments_ && columns_ == o.columns_; }
};

class emit final : public expression {
public:
    class column {
    public:
        column(descriptor::variable source, std::optional<std::string> name = {}) : source_ { std::move(source) }, name_ { std::move(name) } {} // NOLINT
        [[nodiscard]] descriptor::variable& source() noexcept { return source_; }
        [[nodiscard]] descriptor::variable const& source() const noexcept { return source_; }
        [[nodiscard]] std::optional<std::string_view> name() const noexcept { if (name_) return *name_; return {}; }
        friend bool operator==(column const& a, column const& b) noexcept { return a.source_ == b.source_ && a.name_ == b.name_; }
        friend std::ostream& operator<<(std::ostream& o, column const& v) { return o << v.source_ << " as " << v.name_.value_or("(no-name)"); }
    private:
        descriptor::variable source_;
        std::optional<std::string> name_;
    };
    TAKATORI_STUB_RELATION(emit, emit)
    TAKATORI_STUB_IN1
    explicit emit(std::vector<column> columns) : expression { 1, 0 }, columns_ { std::move(columns) } {}
    TAKATORI_STUB_FIELD(std::vector<column>, columns)
    std::ostream& print_to(std::ostream& o) const override { o << "emit("; return details::prv(o, columns_) << ")"; }
private:
    std::vector<column> columns_;
    emit(emit const&) = default;
    [[nodiscard]] bool eq(emit const& o) const noexcept { return columns_ == o.columns_; }
};

class write final : public expression {
public:
    using column = details::mapping_element;
    using key = details::mapping_element;
    TAKATORI_STUB_RELATION(write, write)
    TAKATORI_STUB_IN1
    write(write_kind k, descriptor::relation destination, std::vector<key> keys, std::vector<column> columns) :
        expression { 1, 0 }, operator_kind_ { k }, destination_ { std::move(destination) }, keys_ { std::move(keys) }, columns_ { std::move(columns) } {}
    TAKATORI_STUB_FIELD(write_kind, operator_kind)
    TAKATORI_STUB_FIELD(descriptor::relation, destination)
    TAKATORI_STUB_FIELD(std::vector<key>, keys)
    TAKATORI_STUB_FIELD(std::vector<column>, columns)
    std::ostream& print_to(std::ostream& o) const override { o << "write(" << operator_kind_ << ", " << destination_ << ", "; details::prv(o, keys_) << ", "; return details::prv(o, columns_) << ")"; }
private:
    write_kind operator_kind_;
    descriptor::relation destination_;
    std::vector<key> keys_;
    std::vector<column> columns_;
    write(write const&) = default;
    [[nodiscard]] bool eq(write const& o) const noexcept { return operator_kind_ == o.operator_kind_ && destination_ == o.destination_ && keys_ == o.keys_ && columns_ == o.columns_; }
};

namespace details {
class sort_key_element {
public:
    sort_key_element(descriptor::variable variable, sort_direction direction = sort_direction::ascendant) : variable_ { std::move(variable) }, direction_ { direction } {} // NOLINT
    [[nodiscard]] descriptor::variable& variable() noexcept { return variable_; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return variable_; }
    [[nodiscard]] sort_direction direction() const noexcept { return direction_; }
    friend bool operator==(sort_key_element const& a, sort_key_element const& b) noexcept { return a.variable_ == b.variable_ && a.direction_ == b.direction_; }
    friend std::ostream& operator<<(std::ostream& o, sort_key_element const& v) { return o << v.variable_ << " " << v.direction_; }
private:
    descriptor::variable variable_;
    sort_direction direction_;
};
class aggregate_element {
public:
    aggregate_element(descriptor::aggregate_function function, std::vector<descriptor::variable> arguments, descriptor::variable destination) :
        function_ { std::move(function) }, arguments_ { std::move(arguments) }, destination_ { std::move(destination) } {}
    [[nodiscard]] descriptor::aggregate_function& function() noexcept { return function_; }
    [[nodiscard]] descriptor::aggregate_function const& function() const noexcept { return function_; }
    [[nodiscard]] std::vector<descriptor::variable>& arguments() noexcept { return arguments_; }
    [[nodiscard]] std::vector<descriptor::variable> const& arguments() const noexcept { return arguments_; }
    [[nodiscard]] descriptor::variable& destination() noexcept { return destination_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return destination_; }
    friend bool operator==(aggregate_element const& a, aggregate_element const& b) noexcept { return a.function_ == b.function_ && a.arguments_ == b.arguments_ && a.destination_ == b.destination_; }
    friend std::ostream& operator<<(std::ostream& o, aggregate_element const& v) { o << v.function_ << "("; prv(o, v.arguments_) << ")->" << v.destination_; return o; }
private:
    descriptor::aggregate_function function_;
    std::vector<descriptor::variable> arguments_;
    descriptor::variable destination_;
};
class union_element {
public:
    union_element(std::optional<descriptor::variable> left, std::optional<descriptor::variable> right, descriptor::variable destination) :
        left_ { std::move(left) }, right_ { std::move(right) }, destination_ { std::move(destination) } {}
    [[nodiscard]] std::optional<descriptor::variable>& left() noexcept { return left_; }
    [[nodiscard]] std::optional<descriptor::variable> const& left() const noexcept { return left_; }
    [[nodiscard]] std::optional<descriptor::variable>& right() noexcept { return right_; }
    [[nodiscard]] std::optional<descriptor::variable> const& right() const noexcept { return right_; }
    [[nodiscard]] descriptor::variable& destination() noexcept { return destination_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return destination_; }
    friend bool operator==(union_element const& a, union_element const& b) noexcept { return a.left_ == b.left_ && a.right_ == b.right_ && a.destination_ == b.destination_; }
    friend std::ostream& operator<<(std::ostream& o, union_element const& v) {
        if (v.left_) o << *v.left_; else o << "_";
        o << "|";
        if (v.right_) o << *v.right_; else o << "_";
        return o << "->" << v.destination_;
    }
private:
    std::optional<descriptor::variable> left_;
    std::optional<descriptor::variable> right_;
    descriptor::variable destination_;
};
class group_key_pair {
public:
    group_key_pair(descriptor::variable left, descriptor::variable right) : left_ { std::move(left) }, right_ { std::move(right) } {}
    [[nodiscard]] descriptor::variable& left() noexcept { return left_; }
    [[nodiscard]] descriptor::variable const& left() const noexcept { return left_; }
    [[nodiscard]] descriptor::variable& right() noexcept { return right_; }
    [[nodiscard]] descriptor::variable const& right() const noexcept { return right_; }
    friend bool operator==(group_key_pair const& a, group_key_pair const& b) noexcept { return a.left_ == b.left_ && a.right_ == b.right_; }
    friend std::ostream& operator<<(std::ostream& o, group_key_pair const& v) { return o << v.left_ << "|" << v.right_; }
private:
    descriptor::variable left_;
    descriptor::variable right_;
};
} // namespace details

namespace intermediate {

class join final : public expression {
public:
    using operator_kind_type = join_kind;
    using endpoint = relation::endpoint;
    TAKATORI_STUB_RELATION(join, join_relation)
    TAKATORI_STUB_IN2
    TAKATORI_STUB_OUT1
    explicit join(join_kind k, std::unique_ptr<scalar::expression> c = {}) : expression { 2, 1 }, operator_kind_ { k }, condition_ { std::move(c) } {}
    TAKATORI_STUB_FIELD(join_kind, operator_kind)
    TAKATORI_STUB_FIELD(endpoint, lower)
    TAKATORI_STUB_FIELD(endpoint, upper)
    [[nodiscard]] util::optional_ptr<scalar::expression> condition() noexcept { return util::optional_ptr<scalar::expression> { condition_.get() }; }
    [[nodiscard]] util::optional_ptr<scalar::expression const> condition() const noexcept { return util::optional_ptr<scalar::expression const> { condition_.get() }; }
    std::ostream& print_to(std::ostream& o) const override { o << "join(" << operator_kind_ << ", "; scalar::impl::pr(o, condition_); return o << ")"; }
private:
    join_kind operator_kind_;
    endpoint lower_ {};
    endpoint upper_ {};
    std::unique_ptr<scalar::expression> condition_;
    join(join const& o) : expression { o }, operator_kind_ { o.operator_kind_ }, condition_ { scalar::impl::cp(o.condition_) } {}
    [[nodiscard]] bool eq(join const& o) const noexcept { return operator_kind_ == o.operator_kind_ && scalar::impl::eq(condition_, o.condition_); }
};

class aggregate final : public expression {
public:
    using column = details::aggregate_element;
    TAKATORI_STUB_RELATION(aggregate, aggregate_relation)
    TAKATORI_STUB_IN1
    TAKATORI_STUB_OUT1
    aggregate(std::vector<descriptor::variable> group_keys, std::vector<column> columns) : expression { 1, 1 }, group_keys_ { std::move(group_keys) }, columns_ { std::move(columns) } {}
    TAKATORI_STUB_FIELD(std::vector<descriptor::variable>, group_keys)
    TAKATORI_STUB_FIELD(std::vector<column>, columns)
    std::ostream& print_to(std::ostream& o) const override { o << "aggregate("; details::prv(o, group_keys_) << ", "; return details::prv(o, columns_) << ")"; }
private:
    std::vector<descriptor::variable> group_keys_;
    std::vector<column> columns_;
    aggregate(aggregate const&) = default;
    [[nodiscard]] bool eq(aggregate const& o) const noexcept { return group_keys_ == o.group_keys_ && columns_ == o.columns_; }
};

class distinct final : public expression {
public:
    TAKATORI_STUB_RELATION(distinct, distinct_relation)
    TAKATORI_STUB_IN1
    TAKATORI_STUB_OUT1
    explicit distinct(std::vector<descriptor::variable> group_keys) : expression { 1, 1 }, group_keys_ { std::move(group_keys) } {}
    TAKATORI_STUB_FIELD(std::vector<descriptor::variable>, group_keys)
    std::ostream& print_to(std::ostream& o) const override { o << "distinct("; return details::prv(o, group_keys_) << ")"; }
private:
    std::vector<descriptor::variable> group_keys_;
    distinct(distinct const&) = default;
    [[nodiscard]] bool eq(distinct const& o) const noexcept { return group_keys_ == o.group_keys_; }
};

class limit final : public expression {
public:
    using sort_key = details::sort_key_element;
    TAKATORI_STUB_RELATION(limit, limit_relation)
    TAKATORI_STUB_IN1
    TAKATORI_STUB_OUT1
    limit(std::optional<std::size_t> count, std::vector<descriptor::variable> group_keys, std::vector<sort_key> sort_keys) :
        expression { 1, 1 }, count_ { count }, group_keys_ { std::move(group_keys) }, sort_keys_ { std::move(sort_keys) } {}
    [[nodiscard]] std::optional<std::size_t> const& count() const noexcept { return count_; }
    limit& count(std::optional<std::size_t> v) noexcept { count_ = v; return *this; }
    TAKATORI_STUB_FIELD(std::vector<descriptor::variable>, group_keys)
    TAKATORI_STUB_FIELD(std::vector<sort_key>, sort_keys)
    std::ostream& print_to(std::ostream& o) const override { o << "limit("; if (count_) o << *count_; o << ", "; details::prv(o, group_keys_) << ", "; return details::prv(o, sort_keys_) << ")"; }
private:
    std::optional<std::size_t> count_;
    std::vector<descriptor::variable> group_keys_;
    std::vector<sort_key> sort_keys_;
    limit(limit const&) = default;
    [[nodiscard]] bool eq(limit const& o) const noexcept { return count_ == o.count_ && group_keys_ == o.group_keys_ && sort_keys_ == o.sort_keys_; }
};

class union_ final : public expression {
public:
    using mapping = details::union_element;
    TAKATORI_STUB_RELATION(union_, union_relation)
    TAKATORI_STUB_IN2
    TAKATORI_STUB_OUT1
    union_(set_quantifier q, std::vector<mapping> mappings) : expression { 2, 1 }, quantifier_ { q }, mappings_ { std::move(mappings) } {}
    TAKATORI_STUB_FIELD(set_quantifier, quantifier)
    TAKATORI_STUB_FIELD(std::vector<mapping>, mappings)
    std::ostream& print_to(std::ostream& o) const override { o << "union(" << quantifier_ << ", "; return details::prv(o, mappings_) << ")"; }
private:
    set_quantifier quantifier_;
    std::vector<mapping> mappings_;
    union_(union_ const&) = default;
    [[nodiscard]] bool eq(union_ const& o) const noexcept { return quantifier_ == o.quantifier_ && mappings_ == o.mappings_; }
};

#define TAKATORI_STUB_SETOP(T, K) \
class T final : public expression { \
public: \
    using group_key_pair = details::group_key_pair; \
    TAKATORI_STUB_RELATION(T, K) \
    TAKATORI_STUB_IN2 \
    TAKATORI_STUB_OUT1 \
    T(set_quantifier q, std::vector<group_key_pair> pairs) : expression { 2, 1 }, quantifier_ { q }, group_key_pairs_ { std::move(pairs) } {} \
    TAKATORI_STUB_FIELD(set_quantifier, quantifier) \
    TAKATORI_STUB_FIELD(std::vector<group_key_pair>, group_key_pairs) \
    std::ostream& print_to(std::ostream& o) const override { o << #K "(" << quantifier_ << ", "; return details::prv(o, group_key_pairs_) << ")"; } \
private: \
    set_quantifier quantifier_; \
    std::vector<group_key_pair> group_key_pairs_; \
    T(T const&) = default; \
    [[nodiscard]] bool eq(T const& o) const noexcept { return quantifier_ == o.quantifier_ && group_key_pairs_ == o.group_key_pairs_; } \
};
TAKATORI_STUB_SETOP(difference, difference_relation)
TAKATORI_STUB_SETOP(intersection, intersection_relation)

} // namespace intermediate

class extension : public expression {
public:
    using extension_id_type = std::size_t;
    static constexpr expression_kind tag = expression_kind::extension;
    using expression::expression;
    [[nodiscard]] expression_kind kind() const noexcept final { return tag; }
    [[nodiscard]] virtual extension_id_type extension_id() const noexcept = 0;
};

} // namespace takatori::relation
