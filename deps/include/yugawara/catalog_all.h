#pragma once
// Stand-in for yugawara/{storage,variable,function,aggregate,schema,util,type}/*.h
#include <takatori/util/std_all.h>
#include <functional>
#include <map>
#include <mutex>
#include <takatori/util/clonable.h>
#include <takatori/util/enum_set.h>
#include <takatori/util/fail.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/reference_vector.h>
#include <takatori/util/sequence_view.h>
#include <takatori/type/all.h>
#include <takatori/value/all.h>
#include <takatori/relation/all.h>

namespace yugawara::util {

namespace tu = ::takatori::util;

enum class ternary { no, yes, unknown };
inline std::ostream& operator<<(std::ostream& o, ternary t) { return o << (t == ternary::yes ? "yes" : t == ternary::no ? "no" : "unknown"); }

/// pool of the equivalent objects
template<class T>
class object_repository {
public:
    object_repository() = default;
    template<class U, class = std::enable_if_t<std::is_base_of_v<T, std::remove_cv_t<std::remove_reference_t<U>>>>>
    [[nodiscard]] std::shared_ptr<std::remove_cv_t<std::remove_reference_t<U>> const> get(U&& v) {
        using R = std::remove_cv_t<std::remove_reference_t<U>>;
        for (auto&& e : e_) if (*e == v) return std::static_pointer_cast<R const>(e);
        std::shared_ptr<R const> r { tu::clone_shared(std::forward<U>(v)) };
        e_.emplace_back(r);
        return r;
    }
    [[nodiscard]] std::shared_ptr<T const> get(tu::rvalue_ptr<T> v) { if (!v) return {}; return get(std::move(*v)); }
    void add(std::shared_ptr<T const> v) { for (auto&& e : e_) if (*e == *v) return; e_.emplace_back(std::move(v)); }
    void clear() { e_.clear(); }
    [[nodiscard]] std::size_t size() const noexcept { return e_.size(); }
private:
    std::vector<std::shared_ptr<T const>> e_ {};
};

} // namespace yugawara::util

namespace yugawara::variable {

namespace tu = ::takatori::util;

class nullity {
public:
    explicit constexpr nullity(bool v) noexcept : v_ { v } {}
    [[nodiscard]] constexpr bool nullable() const noexcept { return v_; }
    friend constexpr nullity operator~(nullity n) noexcept { return nullity { !n.v_ }; }
    friend constexpr bool operator==(nullity a, nullity b) noexcept { return a.v_ == b.v_; }
    friend constexpr bool operator!=(nullity a, nullity b) noexcept { return a.v_ != b.v_; }
    friend std::ostream& operator<<(std::ostream& o, nullity n) { return o << (n.v_ ? "nullable" : "~nullable"); }
private:
    bool v_;
};
inline constexpr nullity nullable { true };

class criteria {
public:
    criteria(variable::nullity n = variable::nullable) noexcept : n_ { n } {} // NOLINT
    [[nodiscard]] variable::nullity nullity() const noexcept { return n_; }
    criteria& nullity(variable::nullity n) noexcept { n_ = n; return *this; }
    friend bool operator==(criteria const& a, criteria const& b) noexcept { return a.n_ == b.n_; }
    friend bool operator!=(criteria const& a, criteria const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, criteria const& c) { return o << c.n_; }
private:
    variable::nullity n_;
};

class declaration {
public:
    declaration(std::string_view name, tu::rvalue_ptr<::takatori::type::data> type, variable::criteria c = {}, std::string d = {}) :
        name_ { name }, type_ { tu::clone_shared(type) }, criteria_ { c }, description_ { std::move(d) } {}
    declaration(std::optional<std::size_t>, std::string_view name, std::shared_ptr<::takatori::type::data const> type, variable::criteria c = {}, std::string d = {}) :
        name_ { name }, type_ { std::move(type) }, criteria_ { c }, description_ { std::move(d) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& type() const { return *type_; }
    [[nodiscard]] tu::optional_ptr<::takatori::type::data const> optional_type() const noexcept { return tu::optional_ptr<::takatori::type::data const> { type_.get() }; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_type() const noexcept { return type_; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return criteria_; }
    friend std::ostream& operator<<(std::ostream& o, declaration const& v) { o << "variable(" << v.name_; if (v.type_) o << ", " << *v.type_; return o << ")"; }
private:
    std::string name_;
    std::shared_ptr<::takatori::type::data const> type_;
    variable::criteria criteria_;
    std::string description_;
};

class provider {
public:
    using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>;
    provider() = default;
    virtual ~provider() = default;
    provider(provider const&) = delete;
    provider& operator=(provider const&) = delete;
    virtual void each(consumer_type const& consumer) const = 0;
    [[nodiscard]] virtual std::shared_ptr<declaration const> find(std::string_view name) const = 0;
};

class configurable_provider : public provider {
public:
    configurable_provider() = default;
    void each(consumer_type const& c) const override { for (auto&& [k, v] : m_) c(v); }
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view name) const override { auto i = m_.find(name); if (i == m_.end()) return {}; return i->second; }
    std::shared_ptr<declaration> add(std::shared_ptr<declaration> d, bool overwrite = true) { (void) overwrite; m_[std::string { d->name() }] = d; return d; }
    std::shared_ptr<declaration> add(declaration&& d, bool overwrite = true) { return add(std::make_shared<declaration>(std::move(d)), overwrite); }
    bool remove(std::string_view name) { auto i = m_.find(name); if (i == m_.end()) return false; m_.erase(i); return true; }
private:
    std::map<std::string, std::shared_ptr<declaration>, std::less<>> m_ {};
};

} // namespace yugawara::variable

namespace yugawara::function {

namespace tu = ::takatori::util;

enum class function_feature { scalar_function, table_valued_function };
inline std::ostream& operator<<(std::ostream& o, function_feature f) { return o << (f == function_feature::scalar_function ? "scalar_function" : "table_valued_function"); }
using function_feature_set = tu::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;

class declaration {
public:
    using definition_id_type = std::size_t;
    using feature_set_type = function_feature_set;
    static constexpr definition_id_type unresolved_definition_id = 0;
    static constexpr definition_id_type minimum_system_function_id = 1;
    static constexpr definition_id_type minimum_builtin_function_id = 10'000;
    static constexpr definition_id_type minimum_user_function_id = 20'000;
    declaration(definition_id_type id, std::string name, std::shared_ptr<::takatori::type::data const> r, std::vector<std::shared_ptr<::takatori::type::data const>> p, feature_set_type f = { function_feature::scalar_function }) :
        id_ { id }, name_ { std::move(name) }, r_ { std::move(r) }, p_ { std::move(p) }, f_ { f } {}
    declaration(definition_id_type id, std::string_view name, ::takatori::type::data&& r, std::initializer_list<tu::rvalue_reference_wrapper<::takatori::type::data>> p, feature_set_type f = { function_feature::scalar_function }) :
        id_ { id }, name_ { name }, r_ { tu::clone_shared(std::move(r)) }, f_ { f } { for (auto&& x : p) p_.emplace_back(tu::clone_shared(x.get())); }
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& return_type() const { return *r_; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_return_type() const noexcept { return r_; }
    [[nodiscard]] std::vector<std::shared_ptr<::takatori::type::data const>> const& shared_parameter_types() const noexcept { return p_; }
    [[nodiscard]] std::vector<std::shared_ptr<::takatori::type::data const>>& shared_parameter_types() noexcept { return p_; }
    [[nodiscard]] feature_set_type& features() noexcept { return f_; }
    [[nodiscard]] feature_set_type const& features() const noexcept { return f_; }
    friend bool operator==(declaration const& a, declaration const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(declaration const& a, declaration const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, declaration const& v) { return o << "function(" << v.name_ << "#" << v.id_ << ")"; }
private:
    definition_id_type id_;
    std::string name_;
    std::shared_ptr<::takatori::type::data const> r_;
    std::vector<std::shared_ptr<::takatori::type::data const>> p_ {};
    feature_set_type f_;
};

} // namespace yugawara::function

namespace yugawara::aggregate {

namespace tu = ::takatori::util;

class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr definition_id_type unresolved_definition_id = 0;
    static constexpr definition_id_type minimum_system_function_id = 1;
    static constexpr definition_id_type minimum_builtin_function_id = 10'000;
    static constexpr definition_id_type minimum_user_function_id = 20'000;
    static constexpr std::string_view name_suffix_distinct { "$distinct" };
    declaration(definition_id_type id, std::string name, std::shared_ptr<::takatori::type::data const> r, std::vector<std::shared_ptr<::takatori::type::data const>> p, bool incremental = false) :
        id_ { id }, name_ { std::move(name) }, r_ { std::move(r) }, p_ { std::move(p) }, incremental_ { incremental } {}
    declaration(definition_id_type id, std::string_view name, ::takatori::type::data&& r, std::initializer_list<tu::rvalue_reference_wrapper<::takatori::type::data>> p, bool incremental = false) :
        id_ { id }, name_ { name }, r_ { tu::clone_shared(std::move(r)) }, incremental_ { incremental } { for (auto&& x : p) p_.emplace_back(tu::clone_shared(x.get())); }
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& return_type() const { return *r_; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_return_type() const noexcept { return r_; }
    [[nodiscard]] std::vector<std::shared_ptr<::takatori::type::data const>> const& shared_parameter_types() const noexcept { return p_; }
    [[nodiscard]] bool incremental() const noexcept { return incremental_; }
    friend bool operator==(declaration const& a, declaration const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(declaration const& a, declaration const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, declaration const& v) { return o << "aggregate_function(" << v.name_ << "#" << v.id_ << ")"; }
private:
    definition_id_type id_;
    std::string name_;
    std::shared_ptr<::takatori::type::data const> r_;
    std::vector<std::shared_ptr<::takatori::type::data const>> p_ {};
    bool incremental_;
};

} // namespace yugawara::aggregate

#define YUGAWARA_STUB_FUNC_PROVIDER \
class provider { \
public: \
    using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>; \
    provider() = default; \
    virtual ~provider() = default; \
    provider(provider const&) = delete; \
    provider& operator=(provider const&) = delete; \
    virtual void each(consumer_type const& consumer) const = 0; \
    virtual void each(std::string_view name, std::size_t parameter_count, consumer_type const& consumer) const = 0; \
}; \
class configurable_provider : public provider { \
public: \
    configurable_provider() = default; \
    void each(consumer_type const& c) const override { for (auto&& d : e_) c(d); } \
    void each(std::string_view name, std::size_t n, consumer_type const& c) const override { \
        for (auto&& d : e_) if (d->name() == name && d->shared_parameter_types().size() == n) c(d); \
    } \
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool = true) { e_.emplace_back(std::move(d)); return e_.back(); } \
    std::shared_ptr<declaration> const& add(declaration&& d, bool overwrite = true) { return add(std::make_shared<declaration>(std::move(d)), overwrite); } \
    bool remove(declaration const& d) { for (auto i = e_.begin(); i != e_.end(); ++i) if (i->get() == std::addressof(d)) { e_.erase(i); return true; } return false; } \
private: \
    std::deque<std::shared_ptr<declaration>> e_ {}; \
};
namespace yugawara::function { YUGAWARA_STUB_FUNC_PROVIDER }
namespace yugawara::aggregate { YUGAWARA_STUB_FUNC_PROVIDER }

namespace yugawara::storage {

namespace tu = ::takatori::util;

class relation;
class table;
class index;
class sequence;

class provider {
public:
    using relation_consumer_type = std::function<void(std::string_view, std::shared_ptr<relation const> const&)>;
    using index_consumer_type = std::function<void(std::string_view, std::shared_ptr<index const> const&)>;
    provider() = default;
    virtual ~provider() = default;
    provider(provider const&) = delete;
    provider& operator=(provider const&) = delete;
    virtual void each_relation(relation_consumer_type const& consumer) const = 0;
    [[nodiscard]] virtual std::shared_ptr<relation const> find_relation(std::string_view id) const = 0;
    [[nodiscard]] virtual std::shared_ptr<table const> find_table(std::string_view id) const;
    virtual void each_index(index_consumer_type const& consumer) const = 0;
    virtual void each_table_index(table const& t, std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& consumer) const;
    [[nodiscard]] virtual std::shared_ptr<index const> find_index(std::string_view id) const = 0;
    [[nodiscard]] virtual std::shared_ptr<index const> find_primary_index(table const& t) const;
    [[nodiscard]] virtual std::shared_ptr<sequence const> find_sequence(std::string_view) const { return {}; }
};

enum class relation_kind { table, view };
inline std::ostream& operator<<(std::ostream& o, relation_kind k) { return o << (k == relation_kind::table ? "table" : "view"); }

enum class column_feature { synthesized, hidden, read_only };
inline std::ostream& operator<<(std::ostream& o, column_feature f) { return o << static_cast<int>(f); }
using column_feature_set = tu::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;

class sequence {
public:
    using value_type = std::int64_t;
    sequence(std::optional<std::size_t> id, std::string name, value_type initial, value_type increment, value_type min, value_type max, bool cycle, std::string d = {}) :
        id_ { id }, name_ { std::move(name) }, initial_ { initial }, increment_ { increment }, min_ { min }, max_ { max }, cycle_ { cycle }, description_ { std::move(d) } {}
    [[nodiscard]] std::optional<std::size_t> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] value_type initial_value() const noexcept { return initial_; }
    [[nodiscard]] value_type increment_value() const noexcept { return increment_; }
    [[nodiscard]] std::optional<value_type> min_value() const noexcept { return min_; }
    [[nodiscard]] std::optional<value_type> max_value() const noexcept { return max_; }
    [[nodiscard]] bool cycle() const noexcept { return cycle_; }
    friend std::ostream& operator<<(std::ostream& o, sequence const& v) {
        return o << "sequence(" << v.initial_ << "," << v.increment_ << "," << v.min_ << "," << v.max_ << "," << v.cycle_ << ")";
    }
private:
    std::optional<std::size_t> id_;
    std::string name_;
    value_type initial_;
    value_type increment_;
    value_type min_;
    value_type max_;
    bool cycle_;
    std::string description_;
};

enum class column_value_kind { nothing, immediate, function, sequence };
inline std::ostream& operator<<(std::ostream& o, column_value_kind k) { static constexpr char const* n[] = { "nothing", "immediate", "function", "sequence" }; return o << n[static_cast<std::size_t>(k)]; }

class column_value {
    using entity = std::variant<std::monostate, std::shared_ptr<::takatori::value::data const>, std::shared_ptr<function::declaration const>, std::shared_ptr<storage::sequence const>>;
public:
    using kind_type = column_value_kind;
    column_value() = default;
    column_value(std::nullptr_t) noexcept {} // NOLINT
    template<class T, class = std::enable_if_t<std::is_base_of_v<::takatori::value::data, T>>>
    column_value(std::shared_ptr<T> v) noexcept { if (v) e_ = std::shared_ptr<::takatori::value::data const> { std::move(v) }; } // NOLINT
    column_value(::takatori::value::data&& v) : e_ { std::shared_ptr<::takatori::value::data const> { tu::clone_shared(std::move(v)) } } {} // NOLINT
    column_value(std::shared_ptr<function::declaration> v) noexcept { if (v) e_ = std::shared_ptr<function::declaration const> { std::move(v) }; } // NOLINT
    column_value(std::shared_ptr<function::declaration const> v) noexcept { if (v) e_ = std::move(v); } // NOLINT
    column_value(tu::maybe_shared_ptr<function::declaration const> v) noexcept { if (v) e_ = v.ownership(); } // NOLINT
    column_value(std::shared_ptr<storage::sequence const> v) noexcept { if (v) e_ = std::move(v); } // NOLINT
    column_value(std::shared_ptr<storage::sequence> v) noexcept { if (v) e_ = std::shared_ptr<storage::sequence const> { std::move(v) }; } // NOLINT
    [[nodiscard]] kind_type kind() const noexcept { return static_cast<kind_type>(e_.index()); }
    [[nodiscard]] explicit operator bool() const noexcept { return e_.index() != 0; }
    template<kind_type K> [[nodiscard]] auto const& element() const { return std::get<static_cast<std::size_t>(K)>(e_); }
    friend bool operator==(column_value const& a, column_value const& b) noexcept {
        if (a.e_.index() != b.e_.index()) return false;
        switch (a.kind()) {
            case kind_type::nothing: return true;
            case kind_type::immediate: return *std::get<1>(a.e_) == *std::get<1>(b.e_);
            case kind_type::function: return std::get<2>(a.e_) == std::get<2>(b.e_);
            case kind_type::sequence: return std::get<3>(a.e_) == std::get<3>(b.e_);
        }
        return false;
    }
    friend bool operator!=(column_value const& a, column_value const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, column_value const& v) {
        switch (v.kind()) {
            case kind_type::nothing: return o << "(nothing)";
            case kind_type::immediate: return o << *std::get<1>(v.e_);
            case kind_type::function: return o << *std::get<2>(v.e_);
            case kind_type::sequence: return o << *std::get<3>(v.e_);
        }
        return o;
    }
private:
    entity e_ {};
};

class column {
public:
    column(std::string name, std::shared_ptr<::takatori::type::data const> type, variable::criteria c, column_value v, column_feature_set f = {}, std::string d = {}) :
        name_ { std::move(name) }, type_ { std::move(type) }, criteria_ { c }, default_ { std::move(v) }, features_ { f }, description_ { std::move(d) } {}
    column(std::string_view name, ::takatori::type::data&& type, variable::criteria c = {}, column_value v = {}, column_feature_set f = {}, std::string d = {}) :
        name_ { name }, type_ { tu::clone_shared(std::move(type)) }, criteria_ { c }, default_ { std::move(v) }, features_ { f }, description_ { std::move(d) } {}
    column(column const& o) : name_ { o.name_ }, type_ { o.type_ }, criteria_ { o.criteria_ }, default_ { o.default_ }, features_ { o.features_ }, description_ { o.description_ } {}
    column(column&& o) noexcept : name_ { std::move(o.name_) }, type_ { std::move(o.type_) }, criteria_ { o.criteria_ }, default_ { std::move(o.default_) }, features_ { o.features_ }, description_ { std::move(o.description_) } {}
    column& operator=(column const&) = delete;
    ~column() = default;
    [[nodiscard]] column* clone() const& { return new column(*this); }
    [[nodiscard]] column* clone() && { return new column(std::move(*this)); }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& type() const { return *type_; }
    [[nodiscard]] tu::optional_ptr<::takatori::type::data const> optional_type() const noexcept { return tu::optional_ptr<::takatori::type::data const> { type_.get() }; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_type() const noexcept { return type_; }
    [[nodiscard]] variable::criteria& criteria() noexcept { return criteria_; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return criteria_; }
    [[nodiscard]] column_value& default_value() noexcept { return default_; }
    [[nodiscard]] column_value const& default_value() const noexcept { return default_; }
    column& default_value(column_value v) noexcept { default_ = std::move(v); return *this; }
    [[nodiscard]] column_feature_set& features() noexcept { return features_; }
    [[nodiscard]] column_feature_set const& features() const noexcept { return features_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] relation const& owner() const { return *owner_; }
    [[nodiscard]] tu::optional_ptr<relation const> optional_owner() const noexcept { return tu::optional_ptr<relation const> { owner_ }; }
    void owner_internal(relation const* r) noexcept { owner_ = r; }
    friend bool operator==(column const& a, column const& b) noexcept {
        return std::addressof(a) == std::addressof(b) || (a.owner_ == b.owner_ && a.name_ == b.name_ && *a.type_ == *b.type_ && a.criteria_ == b.criteria_ && a.default_ == b.default_);
    }
    friend bool operator!=(column const& a, column const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, column const& v) { return o << "column(" << v.name_ << ", " << *v.type_ << ", " << v.criteria_ << ", " << v.default_ << ", " << v.features_ << ", '" << v.description_ << "')"; }
private:
    std::string name_;
    std::shared_ptr<::takatori::type::data const> type_;
    variable::criteria criteria_;
    column_value default_;
    column_feature_set features_;
    std::string description_;
    relation const* owner_ { nullptr };
};

class relation {
public:
    relation() = default;
    virtual ~relation() = default;
    relation(relation const&) = delete;
    relation& operator=(relation const&) = delete;
    [[nodiscard]] virtual relation_kind kind() const noexcept = 0;
    [[nodiscard]] virtual std::string_view simple_name() const noexcept = 0;
    [[nodiscard]] virtual tu::reference_vector<column> const& columns() const noexcept = 0;
    [[nodiscard]] tu::optional_ptr<provider const> owner() const noexcept { return tu::optional_ptr<provider const> { owner_ }; }
    void owner_internal(provider const* p) noexcept { owner_ = p; }
    friend bool operator==(relation const& a, relation const& b) noexcept { return std::addressof(a) == std::addressof(b) || a.equals(b); }
    friend bool operator!=(relation const& a, relation const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, relation const& v) { return v.print_to(o); }
protected:
    [[nodiscard]] virtual bool equals(relation const& o) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& o) const = 0;
private:
    provider const* owner_ { nullptr };
};

class table : public relation {
public:
    static constexpr relation_kind tag = relation_kind::table;
    table(std::optional<std::size_t> id, std::string name, tu::reference_vector<column> columns, std::string description = {}) : id_ { id }, name_ { std::move(name) }, columns_ { std::move(columns) }, description_ { std::move(description) } { bless(); }
    table(std::string_view name, std::initializer_list<column> columns) : name_ { name } { columns_.reserve(columns.size()); for (auto&& c : columns) columns_.push_back(c); bless(); }
    table(table&& o) noexcept : id_ { o.id_ }, name_ { std::move(o.name_) }, columns_ { std::move(o.columns_) }, description_ { std::move(o.description_) } { bless(); }
    [[nodiscard]] relation_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::string_view simple_name() const noexcept override { return name_; }
    [[nodiscard]] tu::reference_vector<column>& columns() noexcept { return columns_; }
    [[nodiscard]] tu::reference_vector<column> const& columns() const noexcept override { return columns_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
protected:
    [[nodiscard]] bool equals(relation const& o) const noexcept override { return std::addressof(o) == this; }
    std::ostream& print_to(std::ostream& o) const override { return o << "table(" << name_ << ", " << columns_ << ", '" << description_ << "')"; }
private:
    std::optional<std::size_t> id_ {};
    std::string name_;
    tu::reference_vector<column> columns_ {};
    std::string description_ {};
    void bless() noexcept { for (auto&& c : columns_) c.owner_internal(this); }
};

enum class index_feature { primary, find, scan, unique, unique_constraint };
inline std::ostream& operator<<(std::ostream& o, index_feature f) { static constexpr char const* n[] = { "primary", "find", "scan", "unique", "unique_constraint" }; return o << n[static_cast<std::size_t>(f)]; }
using index_feature_set = tu::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;

class index {
public:
    using column_ref = std::reference_wrapper<storage::column const>;
    class key {
    public:
        using direction_type = ::takatori::relation::sort_direction;
        key(storage::column const& c, direction_type d = direction_type::ascendant) noexcept : c_ { std::addressof(c) }, d_ { d } {} // NOLINT
        [[nodiscard]] storage::column const& column() const noexcept { return *c_; }
        [[nodiscard]] direction_type direction() const noexcept { return d_; }
        friend bool operator==(key const& a, key const& b) noexcept { return *a.c_ == *b.c_ && a.d_ == b.d_; }
        friend bool operator!=(key const& a, key const& b) noexcept { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& o, key const& k) { return o << k.c_->simple_name() << " " << k.d_; }
    private:
        storage::column const* c_;
        direction_type d_;
    };
    using feature_set_type = index_feature_set;
    index(std::optional<std::size_t> id, std::shared_ptr<storage::table const> t, std::string name, std::vector<key> keys, std::vector<column_ref> values, index_feature_set f = {}, std::string d = {}) :
        id_ { id }, table_ { std::move(t) }, name_ { std::move(name) }, keys_ { std::move(keys) }, values_ { std::move(values) }, features_ { f }, description_ { std::move(d) } {}
    index(std::shared_ptr<storage::table const> t, std::string_view name, std::initializer_list<key> keys = {}, std::initializer_list<column_ref> values = {}, index_feature_set f = { index_feature::find, index_feature::scan }) :
        table_ { std::move(t) }, name_ { name }, keys_ { keys }, values_ { values }, features_ { f } {}
    [[nodiscard]] storage::table const& table() const noexcept { return *table_; }
    [[nodiscard]] std::shared_ptr<storage::table const> const& shared_table() const noexcept { return table_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    index& simple_name(std::string v) { name_ = std::move(v); return *this; }
    [[nodiscard]] std::vector<key>& keys() noexcept { return keys_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return keys_; }
    [[nodiscard]] std::vector<column_ref> const& values() const noexcept { return values_; }
    [[nodiscard]] index_feature_set& features() noexcept { return features_; }
    [[nodiscard]] index_feature_set const& features() const noexcept { return features_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend bool operator==(index const& a, index const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(index const& a, index const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, index const& v) {
        o << "index(" << v.name_ << " on " << v.table_->simple_name() << " ";
        ::takatori::relation::details::prv(o, v.keys_);
        return o << ", " << v.features_ << ", '" << v.description_ << "')";
    }
private:
    std::optional<std::size_t> id_ {};
    std::shared_ptr<storage::table const> table_;
    std::string name_;
    std::vector<key> keys_;
    std::vector<column_ref> values_;
    index_feature_set features_;
    std::string description_ {};
};

inline std::shared_ptr<table const> provider::find_table(std::string_view id) const {
    auto r = find_relation(id);
    if (r && r->kind() == relation_kind::table) return std::static_pointer_cast<table const>(r);
    return {};
}
inline void provider::each_table_index(table const& t, std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& consumer) const {
    each_index([&](std::string_view n, std::shared_ptr<index const> const& i) { if (std::addressof(i->table()) == std::addressof(t)) consumer(n, i); });
}
inline std::shared_ptr<index const> provider::find_primary_index(table const& t) const {
    std::shared_ptr<index const> r {};
    each_table_index(t, [&](std::string_view, std::shared_ptr<index const> const& i) { if (!r && i->features().contains(index_feature::primary)) r = i; });
    return r;
}

class configurable_provider : public provider {
public:
    configurable_provider() = default;
    void each_relation(relation_consumer_type const& c) const override { for (auto&& [k, v] : r_) c(k, v); }
    [[nodiscard]] std::shared_ptr<relation const> find_relation(std::string_view id) const override { auto i = r_.find(id); if (i == r_.end()) return {}; return i->second; }
    void each_index(index_consumer_type const& c) const override { for (auto&& [k, v] : i_) c(k, v); }
    [[nodiscard]] std::shared_ptr<index const> find_index(std::string_view id) const override { auto i = i_.find(id); if (i == i_.end()) return {}; return i->second; }
    template<class T, class = std::enable_if_t<std::is_base_of_v<relation, std::remove_const_t<T>>>>
    std::shared_ptr<T> add_relation(std::shared_ptr<T> r, bool = true) { const_cast<std::remove_const_t<T>&>(*r).owner_internal(this); r_[std::string { r->simple_name() }] = std::const_pointer_cast<std::remove_const_t<T>>(r); return r; }
    std::shared_ptr<table> add_table(std::shared_ptr<table> t, bool o = true) { return add_relation(std::move(t), o); }
    std::shared_ptr<table const> add_table(tu::maybe_shared_ptr<table const> t, bool o = true) { return add_relation(t.ownership(), o); }
    std::shared_ptr<table> add_table(table&& t, bool o = true) { return add_relation(std::make_shared<table>(std::move(t)), o); }
    std::shared_ptr<index const> add_index(std::shared_ptr<index const> v, bool = true) { i_[std::string { v->simple_name() }] = v; return v; }
    std::shared_ptr<index> add_index(index&& v, bool = true) { auto p = std::make_shared<index>(std::move(v)); i_[std::string { p->simple_name() }] = p; return p; }
    bool remove_relation(std::string_view n) { auto i = r_.find(n); if (i == r_.end()) return false; i->second->owner_internal(nullptr); r_.erase(i); return true; }
    bool remove_index(std::string_view n) { auto i = i_.find(n); if (i == i_.end()) return false; i_.erase(i); return true; }
private:
    std::map<std::string, std::shared_ptr<relation>, std::less<>> r_ {};
    std::map<std::string, std::shared_ptr<index const>, std::less<>> i_ {};
};

} // namespace yugawara::storage

namespace yugawara::schema {

namespace tu = ::takatori::util;

namespace details {
class null_storage final : public storage::provider {
public:
    void each_relation(relation_consumer_type const&) const override {}
    [[nodiscard]] std::shared_ptr<storage::relation const> find_relation(std::string_view) const override { return {}; }
    void each_index(index_consumer_type const&) const override {}
    [[nodiscard]] std::shared_ptr<storage::index const> find_index(std::string_view) const override { return {}; }
};
class null_variable final : public variable::provider {
public:
    void each(consumer_type const&) const override {}
    [[nodiscard]] std::shared_ptr<variable::declaration const> find(std::string_view) const override { return {}; }
};
class null_function final : public function::provider {
public:
    void each(consumer_type const&) const override {}
    void each(std::string_view, std::size_t, consumer_type const&) const override {}
};
class null_aggregate final : public aggregate::provider {
public:
    void each(consumer_type const&) const override {}
    void each(std::string_view, std::size_t, consumer_type const&) const override {}
};
template<class T> inline T const n_ {};
} // namespace details

class declaration {
public:
    declaration(std::string_view name, std::optional<std::size_t> id = {}, std::shared_ptr<storage::provider> s = {}, std::shared_ptr<variable::provider> v = {}, std::shared_ptr<function::provider> f = {}, std::shared_ptr<aggregate::provider> a = {}, std::string d = {}) :
        id_ { id }, name_ { name }, s_ { std::move(s) }, v_ { std::move(v) }, f_ { std::move(f) }, a_ { std::move(a) }, description_ { std::move(d) } {}
    declaration(std::optional<std::size_t> id, std::string name, std::shared_ptr<storage::provider> s = {}, std::shared_ptr<variable::provider> v = {}, std::shared_ptr<function::provider> f = {}, std::shared_ptr<aggregate::provider> a = {}, std::string d = {}) :
        id_ { id }, name_ { std::move(name) }, s_ { std::move(s) }, v_ { std::move(v) }, f_ { std::move(f) }, a_ { std::move(a) }, description_ { std::move(d) } {}
    [[nodiscard]] std::optional<std::size_t> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] storage::provider const& storage_provider() const noexcept { if (s_) return *s_; return details::n_<details::null_storage>; }
    [[nodiscard]] variable::provider const& variable_provider() const noexcept { if (v_) return *v_; return details::n_<details::null_variable>; }
    [[nodiscard]] function::provider const& function_provider() const noexcept { if (f_) return *f_; return details::n_<details::null_function>; }
    [[nodiscard]] aggregate::provider const& set_function_provider() const noexcept { if (a_) return *a_; return details::n_<details::null_aggregate>; }
    [[nodiscard]] std::shared_ptr<storage::provider> const& shared_storage_provider() const noexcept { return s_; }
    friend bool operator==(declaration const& a, declaration const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(declaration const& a, declaration const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, declaration const& v) { return o << "schema(" << v.name_ << ")"; }
private:
    std::optional<std::size_t> id_ {};
    std::string name_;
    std::shared_ptr<storage::provider> s_;
    std::shared_ptr<variable::provider> v_;
    std::shared_ptr<function::provider> f_;
    std::shared_ptr<aggregate::provider> a_;
    std::string description_;
};

class provider {
public:
    using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>;
    provider() = default;
    virtual ~provider() = default;
    provider(provider const&) = delete;
    provider& operator=(provider const&) = delete;
    virtual void each(consumer_type const& consumer) const = 0;
    [[nodiscard]] virtual std::shared_ptr<declaration const> find(std::string_view name) const = 0;
};

namespace details {
class null_schema final : public provider {
public:
    void each(consumer_type const&) const override {}
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view) const override { return {}; }
};
}

class configurable_provider : public provider {
public:
    configurable_provider() = default;
    void each(consumer_type const& c) const override { for (auto&& [k, v] : m_) c(v); }
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view name) const override { auto i = m_.find(name); if (i == m_.end()) return {}; return i->second; }
    std::shared_ptr<declaration> add(std::shared_ptr<declaration> d, bool = true) { m_[std::string { d->name() }] = d; return d; }
    std::shared_ptr<declaration> add(declaration&& d, bool o = true) { return add(std::make_shared<declaration>(std::move(d)), o); }
    bool remove(std::string_view name) { auto i = m_.find(name); if (i == m_.end()) return false; m_.erase(i); return true; }
private:
    std::map<std::string, std::shared_ptr<declaration>, std::less<>> m_ {};
};

class catalog {
public:
    explicit catalog(std::string_view name, std::optional<std::size_t> id = {}, std::shared_ptr<schema::provider> p = {}) : id_ { id }, name_ { name }, p_ { std::move(p) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] schema::provider const& schema_provider() const noexcept { if (p_) return *p_; return details::n_<details::null_schema>; }
    friend std::ostream& operator<<(std::ostream& o, catalog const& v) { return o << "catalog(" << v.name_ << ")"; }
private:
    std::optional<std::size_t> id_;
    std::string name_;
    std::shared_ptr<schema::provider> p_;
};

class search_path {
public:
    using vector_type = std::vector<tu::maybe_shared_ptr<declaration const>>;
    search_path() = default;
    search_path(std::initializer_list<tu::maybe_shared_ptr<declaration const>> e) : e_ { e } {} // NOLINT
    explicit search_path(vector_type e) noexcept : e_ { std::move(e) } {}
    [[nodiscard]] vector_type& elements() noexcept { return e_; }
    [[nodiscard]] vector_type const& elements() const noexcept { return e_; }
    friend std::ostream& operator<<(std::ostream& o, search_path const& v) { return o << "search_path(" << v.e_.size() << ")"; }
private:
    vector_type e_ {};
};

} // namespace yugawara::schema

namespace yugawara::type {

inline int numeric_rank(::takatori::type::type_kind k) noexcept {
    using kind = ::takatori::type::type_kind;
    switch (k) {
        case kind::int1: return 1;
        case kind::int2: return 2;
        case kind::int4: return 3;
        case kind::int8: return 4;
        case kind::decimal: return 5;
        case kind::float4: return 6;
        case kind::float8: return 7;
        default: return 0;
    }
}
/// whether the argument is applicable to the parameter
inline util::ternary is_parameter_application_convertible(::takatori::type::data const& arg, ::takatori::type::data const& param) {
    using kind = ::takatori::type::type_kind;
    if (arg.kind() == kind::unknown) return util::ternary::yes;
    if (arg.kind() == param.kind()) {
        if (arg.kind() == kind::time_of_day || arg.kind() == kind::time_point) return arg == param ? util::ternary::yes : util::ternary::no;
        return util::ternary::yes;
    }
    auto a = numeric_rank(arg.kind());
    auto b = numeric_rank(param.kind());
    if (a > 0 && b > 0) return a <= b ? util::ternary::yes : util::ternary::no;
    return util::ternary::no;
}

} // namespace yugawara::type
