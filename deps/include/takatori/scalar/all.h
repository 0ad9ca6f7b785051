#pragma once
// Stand-in for takatori/scalar/*.h
#include <takatori/util/std_all.h>
#include <takatori/util/callback.h>
#include <takatori/util/clonable.h>
#include <takatori/util/downcast.h>
#include <takatori/util/fail.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/ownership_reference.h>
#include <takatori/util/reference_vector.h>
#include <takatori/util/rvalue_ptr.h>
#include <takatori/util/rvalue_reference_wrapper.h>
#include <takatori/util/string_builder.h>
#include <takatori/document/region.h>
#include <takatori/descriptor/all.h>
#include <takatori/type/all.h>
#include <takatori/value/all.h>

namespace takatori::scalar {

enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
inline std::string_view to_string_view(expression_kind k) noexcept {
    static constexpr char const* n[] = { "immediate", "variable_reference", "unary", "cast", "binary", "compare", "match", "conditional", "coalesce", "let", "function_call", "extension" };
    return n[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << to_string_view(k); }

class expression {
public:
    expression() = default;
    virtual ~expression() = default;
    expression(expression const&) = delete;
    expression& operator=(expression const&) = delete;
    expression(expression&&) = delete;
    expression& operator=(expression&&) = delete;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
    [[nodiscard]] virtual expression* clone() const& = 0;
    [[nodiscard]] virtual expression* clone() && = 0;
    friend bool operator==(expression const& a, expression const& b) noexcept { return a.equals(b); }
    friend bool operator!=(expression const& a, expression const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& o, expression const& v) { return v.print_to(o); }
protected:
    [[nodiscard]] virtual bool equals(expression const& other) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
private:
    document::region region_ {};
};

namespace impl {

using uexpr = std::unique_ptr<expression>;

/// accepts both of owned pointers and rvalues of expressions
class arg {
public:
    arg() = default;
    arg(std::nullptr_t) {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_base_of_v<expression, U>>>
    arg(std::unique_ptr<U> p) : p_ { std::move(p) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_base_of_v<expression, std::remove_cv_t<U>> && !std::is_lvalue_reference_v<U>>, class = void>
    arg(U&& v) : p_ { std::move(v).clone() } {} // NOLINT
    arg(util::rvalue_ptr<expression> p) : p_ { util::clone_unique(p) } {} // NOLINT
    uexpr take() const { return std::move(p_); }
private:
    mutable uexpr p_ {};
};
class args {
public:
    args() = default;
    template<class U> args(std::vector<std::unique_ptr<U>> v) { for (auto&& e : v) v_.emplace_back(std::move(e)); } // NOLINT
    args(util::reference_vector<expression> v) : v_ { v.release_elements() } {} // NOLINT
    args(std::initializer_list<arg> v) { for (auto&& e : v) v_.emplace_back(e.take()); } // NOLINT
    std::vector<uexpr> take() { return std::move(v_); }
private:
    std::vector<uexpr> v_ {};
};
inline bool eq(uexpr const& a, uexpr const& b) noexcept { if (!a || !b) return !a && !b; return *a == *b; }
inline void pr(std::ostream& o, uexpr const& e) { if (e) o << *e; else o << "()"; }
inline uexpr cp(uexpr const& e) { return e ? uexpr { e->clone() } : uexpr {}; }

#define TAKATORI_STUB_CLONE(T) \
    T(::takatori::util::clone_tag_t, T const& o) : T(o) {} \
    T(::takatori::util::clone_tag_t, T&& o) : T(std::move(o)) {} \
    [[nodiscard]] T* clone() const& override { return new T(*this); } \
    [[nodiscard]] T* clone() && override { return new T(std::move(*this)); } \
    friend bool operator==(T const& a, T const& b) noexcept { return a.eq(b); } \
    friend bool operator!=(T const& a, T const& b) noexcept { return !a.eq(b); }
#define TAKATORI_STUB_CHILD(name) \
    [[nodiscard]] expression& name() noexcept { BOOST_ASSERT(name##_ != nullptr); return *name##_; } \
    [[nodiscard]] expression const& name() const noexcept { BOOST_ASSERT(name##_ != nullptr); return *name##_; } \
    [[nodiscard]] util::optional_ptr<expression> optional_##name() noexcept { return util::optional_ptr<expression> { name##_.get() }; } \
    [[nodiscard]] util::optional_ptr<expression const> optional_##name() const noexcept { return util::optional_ptr<expression const> { name##_.get() }; } \
    [[nodiscard]] util::ownership_reference<expression> ownership_##name() { return util::ownership_reference<expression> { name##_ }; } \
    [[nodiscard]] std::unique_ptr<expression> release_##name() noexcept { return std::move(name##_); } \
    auto& name(std::unique_ptr<expression> v) noexcept { name##_ = std::move(v); return *this; }

} // namespace impl

#define TAKATORI_STUB_SCALAR(T) \
    static constexpr expression_kind tag = expression_kind::T; \
    [[nodiscard]] expression_kind kind() const noexcept override { return tag; } \
    ~T() override = default; \
protected: \
    [[nodiscard]] bool equals(expression const& o) const noexcept override { return o.kind() == tag && eq(static_cast<T const&>(o)); } \
public:

class immediate final : public expression {
public:
    TAKATORI_STUB_SCALAR(immediate)
    immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) : v_ { std::move(v) }, t_ { std::move(t) } {}
    immediate(util::rvalue_ptr<value::data> v, util::rvalue_ptr<type::data> t) : v_ { util::clone_shared(v) }, t_ { util::clone_shared(t) } {}
    template<class V, class T, class = std::enable_if_t<std::is_base_of_v<value::data, V> && std::is_base_of_v<type::data, T>>>
    immediate(V&& v, T&& t) : v_ { std::move(v).clone() }, t_ { std::move(t).clone() } {}
    immediate(immediate const& o) : expression(), v_ { o.v_ }, t_ { o.t_ } { region() = o.region(); }
    immediate(immediate&& o) : expression(), v_ { std::move(o.v_) }, t_ { std::move(o.t_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(immediate)
    [[nodiscard]] value::data const& value() const noexcept { return *v_; }
    [[nodiscard]] type::data const& type() const noexcept { return *t_; }
    [[nodiscard]] std::shared_ptr<value::data const> const& shared_value() const noexcept { return v_; }
    [[nodiscard]] std::shared_ptr<type::data const> const& shared_type() const noexcept { return t_; }
    immediate& value(std::shared_ptr<value::data const> v) noexcept { v_ = std::move(v); return *this; }
    immediate& type(std::shared_ptr<type::data const> t) noexcept { t_ = std::move(t); return *this; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "immediate(" << *v_ << ", " << *t_ << ")"; }
private:
    std::shared_ptr<value::data const> v_;
    std::shared_ptr<type::data const> t_;
    [[nodiscard]] bool eq(immediate const& o) const noexcept { return *v_ == *o.v_ && *t_ == *o.t_; }
};

class variable_reference final : public expression {
public:
    TAKATORI_STUB_SCALAR(variable_reference)
    explicit variable_reference(descriptor::variable v) : v_ { std::move(v) } {}
    variable_reference(variable_reference const& o) : expression(), v_ { o.v_ } { region() = o.region(); }
    variable_reference(variable_reference&& o) : expression(), v_ { std::move(o.v_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(variable_reference)
    [[nodiscard]] descriptor::variable& variable() noexcept { return v_; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "variable_reference(" << v_ << ")"; }
private:
    descriptor::variable v_;
    [[nodiscard]] bool eq(variable_reference const& o) const noexcept { return v_ == o.v_; }
};

enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
inline std::ostream& operator<<(std::ostream& o, unary_operator k) {
    static constexpr char const* n[] = { "plus", "sign_inversion", "conditional_not", "length", "is_null", "is_true", "is_false", "is_unknown" };
    return o << n[static_cast<std::size_t>(k)];
}
class unary final : public expression {
public:
    using operator_kind_type = unary_operator;
    TAKATORI_STUB_SCALAR(unary)
    unary(unary_operator k, impl::arg operand) : k_ { k }, operand_ { operand.take() } {}
    unary(unary const& o) : expression(), k_ { o.k_ }, operand_ { impl::cp(o.operand_) } { region() = o.region(); }
    unary(unary&& o) : expression(), k_ { o.k_ }, operand_ { std::move(o.operand_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(unary)
    TAKATORI_STUB_CHILD(operand)
    [[nodiscard]] unary_operator operator_kind() const noexcept { return k_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "unary(" << k_ << ", "; impl::pr(out, operand_); return out << ")"; }
private:
    unary_operator k_;
    impl::uexpr operand_;
    [[nodiscard]] bool eq(unary const& o) const noexcept { return k_ == o.k_ && impl::eq(operand_, o.operand_); }
};

enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
inline std::ostream& operator<<(std::ostream& o, cast_loss_policy k) { return o << static_cast<int>(k); }
class cast final : public expression {
public:
    using loss_policy_type = cast_loss_policy;
    TAKATORI_STUB_SCALAR(cast)
    cast(std::shared_ptr<type::data const> t, cast_loss_policy p, impl::arg operand) : t_ { std::move(t) }, p_ { p }, operand_ { operand.take() } {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<type::data, T>>>
    cast(T&& t, cast_loss_policy p, impl::arg operand) : t_ { std::move(t).clone() }, p_ { p }, operand_ { operand.take() } {}
    cast(util::rvalue_ptr<type::data> t, cast_loss_policy p, impl::arg operand) : t_ { util::clone_shared(t) }, p_ { p }, operand_ { operand.take() } {}
    cast(cast const& o) : expression(), t_ { o.t_ }, p_ { o.p_ }, operand_ { impl::cp(o.operand_) } { region() = o.region(); }
    cast(cast&& o) : expression(), t_ { std::move(o.t_) }, p_ { o.p_ }, operand_ { std::move(o.operand_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(cast)
    TAKATORI_STUB_CHILD(operand)
    [[nodiscard]] type::data const& type() const noexcept { return *t_; }
    [[nodiscard]] std::shared_ptr<type::data const> const& shared_type() const noexcept { return t_; }
    [[nodiscard]] cast_loss_policy loss_policy() const noexcept { return p_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "cast(" << *t_ << ", " << p_ << ", "; impl::pr(out, operand_); return out << ")"; }
private:
    std::shared_ptr<type::data const> t_;
    cast_loss_policy p_;
    impl::uexpr operand_;
    [[nodiscard]] bool eq(cast const& o) const noexcept { return *t_ == *o.t_ && p_ == o.p_ && impl::eq(operand_, o.operand_); }
};

enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
inline std::ostream& operator<<(std::ostream& o, binary_operator k) {
    static constexpr char const* n[] = { "concat", "add", "subtract", "multiply", "divide", "remainder", "conditional_and", "conditional_or" };
    return o << n[static_cast<std::size_t>(k)];
}
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal };
inline std::ostream& operator<<(std::ostream& o, comparison_operator k) {
    static constexpr char const* n[] = { "equal", "not_equal", "less", "less_equal", "greater", "greater_equal" };
    return o << n[static_cast<std::size_t>(k)];
}
[[nodiscard]] inline comparison_operator transpose(comparison_operator k) noexcept {
    switch (k) {
        case comparison_operator::less: return comparison_operator::greater;
        case comparison_operator::less_equal: return comparison_operator::greater_equal;
        case comparison_operator::greater: return comparison_operator::less;
        case comparison_operator::greater_equal: return comparison_operator::less_equal;
        default: return k;
    }
}
enum class quantifier { all, any };
inline std::ostream& operator<<(std::ostream& o, quantifier k) { return o << (k == quantifier::all ? "all" : "any"); }
enum class match_operator { like, similar };
inline std::ostream& operator<<(std::ostream& o, match_operator k) { return o << (k == match_operator::like ? "like" : "similar"); }

#define TAKATORI_STUB_BINARY(T, OP) \
class T final : public expression { \
public: \
    using operator_kind_type = OP; \
    TAKATORI_STUB_SCALAR(T) \
    T(OP k, impl::arg l, impl::arg r) : k_ { k }, left_ { l.take() }, right_ { r.take() } {} \
    T(T const& o) : expression(), k_ { o.k_ }, left_ { impl::cp(o.left_) }, right_ { impl::cp(o.right_) } { region() = o.region(); } \
    T(T&& o) : expression(), k_ { o.k_ }, left_ { std::move(o.left_) }, right_ { std::move(o.right_) } { region() = o.region(); } \
    TAKATORI_STUB_CLONE(T) \
    TAKATORI_STUB_CHILD(left) \
    TAKATORI_STUB_CHILD(right) \
    [[nodiscard]] OP operator_kind() const noexcept { return k_; } \
protected: \
    std::ostream& print_to(std::ostream& out) const override { out << #T "(" << k_ << ", "; impl::pr(out, left_); out << ", "; impl::pr(out, right_); return out << ")"; } \
private: \
    OP k_; \
    impl::uexpr left_; \
    impl::uexpr right_; \
    [[nodiscard]] bool eq(T const& o) const noexcept { return k_ == o.k_ && impl::eq(left_, o.left_) && impl::eq(right_, o.right_); } \
};
TAKATORI_STUB_BINARY(binary, binary_operator)
TAKATORI_STUB_BINARY(compare, comparison_operator)

class match final : public expression {
public:
    using operator_kind_type = match_operator;
    TAKATORI_STUB_SCALAR(match)
    match(match_operator k, impl::arg input, impl::arg pattern, impl::arg escape) : k_ { k }, input_ { input.take() }, pattern_ { pattern.take() }, escape_ { escape.take() } {}
    match(match const& o) : expression(), k_ { o.k_ }, input_ { impl::cp(o.input_) }, pattern_ { impl::cp(o.pattern_) }, escape_ { impl::cp(o.escape_) } { region() = o.region(); }
    match(match&& o) : expression(), k_ { o.k_ }, input_ { std::move(o.input_) }, pattern_ { std::move(o.pattern_) }, escape_ { std::move(o.escape_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(match)
    TAKATORI_STUB_CHILD(input)
    TAKATORI_STUB_CHILD(pattern)
    TAKATORI_STUB_CHILD(escape)
    [[nodiscard]] match_operator operator_kind() const noexcept { return k_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "match(" << k_ << ", "; impl::pr(out, input_); out << ", "; impl::pr(out, pattern_); out << ", "; impl::pr(out, escape_); return out << ")"; }
private:
    match_operator k_;
    impl::uexpr input_, pattern_, escape_;
    [[nodiscard]] bool eq(match const& o) const noexcept { return k_ == o.k_ && impl::eq(input_, o.input_) && impl::eq(pattern_, o.pattern_) && impl::eq(escape_, o.escape_); }
};

class conditional final : public expression {
public:
    class alternative {
    public:
        alternative(impl::arg c, impl::arg b) : condition_ { c.take() }, body_ { b.take() } {}
        alternative(alternative const& o) : condition_ { impl::cp(o.condition_) }, body_ { impl::cp(o.body_) } {}
        alternative(alternative&&) noexcept = default;
        alternative& operator=(alternative&&) noexcept = default;
        TAKATORI_STUB_CHILD(condition)
        TAKATORI_STUB_CHILD(body)
        friend bool operator==(alternative const& a, alternative const& b) noexcept { return impl::eq(a.condition_, b.condition_) && impl::eq(a.body_, b.body_); }
        friend bool operator!=(alternative const& a, alternative const& b) noexcept { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& out, alternative const& a) { out << "alternative("; impl::pr(out, a.condition_); out << ", "; impl::pr(out, a.body_); return out << ")"; }
    private:
        impl::uexpr condition_, body_;
    };
    TAKATORI_STUB_SCALAR(conditional)
    explicit conditional(std::vector<alternative> a, impl::arg d = {}) : a_ { std::move(a) }, default_expression_ { d.take() } {}
    conditional(std::initializer_list<alternative> a, impl::arg d = {}) : a_ { a }, default_expression_ { d.take() } {}
    conditional(conditional const& o) : expression(), a_ { o.a_ }, default_expression_ { impl::cp(o.default_expression_) } { region() = o.region(); }
    conditional(conditional&& o) : expression(), a_ { std::move(o.a_) }, default_expression_ { std::move(o.default_expression_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(conditional)
    [[nodiscard]] std::vector<alternative>& alternatives() noexcept { return a_; }
    [[nodiscard]] std::vector<alternative> const& alternatives() const noexcept { return a_; }
    [[nodiscard]] util::optional_ptr<expression> default_expression() noexcept { return util::optional_ptr<expression> { default_expression_.get() }; }
    [[nodiscard]] util::optional_ptr<expression const> default_expression() const noexcept { return util::optional_ptr<expression const> { default_expression_.get() }; }
    [[nodiscard]] util::ownership_reference<expression> ownership_default_expression() { return util::ownership_reference<expression> { default_expression_ }; }
    [[nodiscard]] std::unique_ptr<expression> release_default_expression() noexcept { return std::move(default_expression_); }
    conditional& default_expression(std::unique_ptr<expression> v) noexcept { default_expression_ = std::move(v); return *this; }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "conditional("; for (auto&& a : a_) out << a << ", "; impl::pr(out, default_expression_); return out << ")"; }
private:
    std::vector<alternative> a_;
    impl::uexpr default_expression_;
    [[nodiscard]] bool eq(conditional const& o) const noexcept { return a_ == o.a_ && impl::eq(default_expression_, o.default_expression_); }
};

class coalesce final : public expression {
public:
    TAKATORI_STUB_SCALAR(coalesce)
    explicit coalesce(impl::args a) : a_ { a.take() } {}
    coalesce(std::initializer_list<impl::arg> a) : coalesce(impl::args(a)) {}
    coalesce(coalesce const& o) : expression(), a_ { o.a_ } { region() = o.region(); }
    coalesce(coalesce&& o) : expression(), a_ { std::move(o.a_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(coalesce)
    [[nodiscard]] util::reference_vector<expression>& alternatives() noexcept { return a_; }
    [[nodiscard]] util::reference_vector<expression> const& alternatives() const noexcept { return a_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "coalesce(" << a_ << ")"; }
private:
    util::reference_vector<expression> a_;
    [[nodiscard]] bool eq(coalesce const& o) const noexcept { return a_ == o.a_; }
};

namespace details {
    class let_variable {
    public:
        let_variable(descriptor::variable v, impl::arg e) : v_ { std::move(v) }, value_ { e.take() } {}
        let_variable(let_variable const& o) : v_ { o.v_ }, value_ { impl::cp(o.value_) } {}
        let_variable(let_variable&&) noexcept = default;
        let_variable& operator=(let_variable&&) noexcept = default;
        [[nodiscard]] descriptor::variable& declaration() noexcept { return v_; }
        [[nodiscard]] descriptor::variable const& declaration() const noexcept { return v_; }
        [[nodiscard]] descriptor::variable& variable() noexcept { return v_; }
        [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
        TAKATORI_STUB_CHILD(value)
        friend bool operator==(let_variable const& a, let_variable const& b) noexcept { return a.v_ == b.v_ && impl::eq(a.value_, b.value_); }
        friend bool operator!=(let_variable const& a, let_variable const& b) noexcept { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& out, let_variable const& v) { out << v.v_ << " := "; impl::pr(out, v.value_); return out; }
    private:
        descriptor::variable v_;
        impl::uexpr value_;
    };
} // namespace details

class let final : public expression {
public:
    using variable = details::let_variable;
    TAKATORI_STUB_SCALAR(let)
    explicit let(std::vector<variable> v, impl::arg body) : v_ { std::move(v) }, body_ { body.take() } {}
    let(std::initializer_list<variable> v, impl::arg body) : v_ { v }, body_ { body.take() } {}
    let(variable v, impl::arg body) : body_ { body.take() } { v_.emplace_back(std::move(v)); }
    let(let const& o) : expression(), v_ { o.v_ }, body_ { impl::cp(o.body_) } { region() = o.region(); }
    let(let&& o) : expression(), v_ { std::move(o.v_) }, body_ { std::move(o.body_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(let)
    TAKATORI_STUB_CHILD(body)
    [[nodiscard]] std::vector<variable>& variables() noexcept { return v_; }
    [[nodiscard]] std::vector<variable> const& variables() const noexcept { return v_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "let("; for (auto&& v : v_) out << v << "; "; impl::pr(out, body_); return out << ")"; }
private:
    std::vector<variable> v_;
    impl::uexpr body_;
    [[nodiscard]] bool eq(let const& o) const noexcept { return v_ == o.v_ && impl::eq(body_, o.body_); }
};

class function_call final : public expression {
public:
    TAKATORI_STUB_SCALAR(function_call)
    explicit function_call(descriptor::function f, impl::args a = {}) : f_ { std::move(f) }, a_ { a.take() } {}
    function_call(function_call const& o) : expression(), f_ { o.f_ }, a_ { o.a_ } { region() = o.region(); }
    function_call(function_call&& o) : expression(), f_ { std::move(o.f_) }, a_ { std::move(o.a_) } { region() = o.region(); }
    TAKATORI_STUB_CLONE(function_call)
    [[nodiscard]] descriptor::function& function() noexcept { return f_; }
    [[nodiscard]] descriptor::function const& function() const noexcept { return f_; }
    [[nodiscard]] util::reference_vector<expression>& arguments() noexcept { return a_; }
    [[nodiscard]] util::reference_vector<expression> const& arguments() const noexcept { return a_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "function_call(" << f_ << ", " << a_ << ")"; }
private:
    descriptor::function f_;
    util::reference_vector<expression> a_;
    [[nodiscard]] bool eq(function_call const& o) const noexcept { return f_ == o.f_ && a_ == o.a_; }
};

class extension : public expression {
public:
    using extension_id_type = std::size_t;
    static constexpr expression_kind tag = expression_kind::extension;
    [[nodiscard]] expression_kind kind() const noexcept final { return tag; }
    [[nodiscard]] virtual extension_id_type extension_id() const noexcept = 0;
    [[nodiscard]] extension* clone() const& override = 0;
    [[nodiscard]] extension* clone() && override = 0;
protected:
    [[nodiscard]] bool equals(expression const& o) const noexcept final { return o.kind() == tag && extension_equals(static_cast<extension const&>(o)); }
    [[nodiscard]] virtual bool extension_equals(extension const& o) const noexcept = 0;
};

template<class Callback, class E, class... Args>
inline decltype(auto) dispatch(Callback&& callback, E&& e, Args&&... args) {
    using namespace ::takatori::util;
    switch (e.kind()) {
#define TAKATORI_STUB_CASE(T) case expression_kind::T: return polymorphic_callback<T>(std::forward<Callback>(callback), std::forward<E>(e), std::forward<Args>(args)...);
        TAKATORI_STUB_CASE(immediate) TAKATORI_STUB_CASE(variable_reference) TAKATORI_STUB_CASE(unary) TAKATORI_STUB_CASE(cast)
        TAKATORI_STUB_CASE(binary) TAKATORI_STUB_CASE(compare) TAKATORI_STUB_CASE(match) TAKATORI_STUB_CASE(conditional)
        TAKATORI_STUB_CASE(coalesce) TAKATORI_STUB_CASE(let) TAKATORI_STUB_CASE(function_call) TAKATORI_STUB_CASE(extension)
#undef TAKATORI_STUB_CASE
    }
    std::abort();
}

namespace details::walk_impl {
template<class C, class E> using pre_t = decltype(std::declval<C&>()(std::declval<E&>()));
/// calls back for each node in pre-order; when the callback returns false, its children are skipped
template<class Callback>
void walk(Callback& cb, expression& e) {
    bool enter = dispatch([&](auto& x) -> bool {
        if constexpr (std::is_same_v<decltype(cb(x)), bool>) { return cb(x); } else { cb(x); return true; }
    }, e);
    if (!enter) return;
    auto sub = [&](util::optional_ptr<expression> c) { if (c) walk(cb, *c); };
    switch (e.kind()) {
        case expression_kind::unary: sub(static_cast<unary&>(e).optional_operand()); break;
        case expression_kind::cast: sub(static_cast<cast&>(e).optional_operand()); break;
        case expression_kind::binary: sub(static_cast<binary&>(e).optional_left()); sub(static_cast<binary&>(e).optional_right()); break;
        case expression_kind::compare: sub(static_cast<compare&>(e).optional_left()); sub(static_cast<compare&>(e).optional_right()); break;
        case expression_kind::match: { auto& m = static_cast<match&>(e); sub(m.optional_input()); sub(m.optional_pattern()); sub(m.optional_escape()); break; }
        case expression_kind::conditional: { auto& m = static_cast<conditional&>(e); for (auto&& a : m.alternatives()) { sub(a.optional_condition()); sub(a.optional_body()); } sub(m.default_expression()); break; }
        case expression_kind::coalesce: for (auto&& a : static_cast<coalesce&>(e).alternatives()) walk(cb, a); break;
        case expression_kind::let: { auto& m = static_cast<let&>(e); for (auto&& a : m.variables()) sub(a.optional_value()); sub(m.optional_body()); break; }
        case expression_kind::function_call: for (auto&& a : static_cast<function_call&>(e).arguments()) walk(cb, a); break;
        default: break;
    }
}
} // namespace details::walk_impl
template<class Callback>
inline void walk(Callback&& cb, expression& e) { details::walk_impl::walk(cb, e); }
template<class Callback>
inline void walk(Callback&& cb, expression const& e) {
    auto f = [&](auto& x) { return cb(std::as_const(x)); };
    details::walk_impl::walk(f, const_cast<expression&>(e)); // NOLINT
}

} // namespace takatori::scalar
