#pragma once
// Stand-in for yugawara/binding/*.h and yugawara/diagnostic.h
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/exception.h>
#include <takatori/descriptor/all.h>
#include <takatori/relation/all.h>
#include <takatori/statement/all.h>
#include <yugawara/catalog_all.h>

namespace yugawara {

template<class Code>
class diagnostic {
public:
    using code_type = Code;
    using message_type = std::string;
    using location_type = ::takatori::document::region;
    diagnostic() = default;
    diagnostic(code_type code, message_type message, location_type location) : code_ { code }, message_ { std::move(message) }, location_ { location } {}
    [[nodiscard]] code_type code() const noexcept { return code_; }
    [[nodiscard]] message_type const& message() const noexcept { return message_; }
    [[nodiscard]] location_type const& location() const noexcept { return location_; }
    friend std::ostream& operator<<(std::ostream& o, diagnostic const& v) { return o << v.code_ << ": " << v.message_ << " (" << v.location_ << ")"; }
private:
    code_type code_ {};
    message_type message_ {};
    location_type location_ {};
};

namespace binding {

namespace td = ::takatori::descriptor;
namespace tu = ::takatori::util;

enum class variable_info_kind { table_column, exchange_column, external_variable, frame_variable, stream_variable, local_variable };
inline std::ostream& operator<<(std::ostream& o, variable_info_kind k) {
    static constexpr char const* n[] = { "table_column", "exchange_column", "external_variable", "frame_variable", "stream_variable", "local_variable" };
    return o << n[static_cast<std::size_t>(k)];
}

/// optional hook: prints an identity of anonymous entities in a stable way (identities are addresses otherwise)
using identity_printer = void (*)(std::ostream& out, void const* identity);
inline identity_printer identity_printer_ { nullptr };

class variable_info : public td::variable::entity_type {
public:
    [[nodiscard]] virtual variable_info_kind kind() const noexcept = 0;
    [[nodiscard]] std::size_t class_id() const noexcept final { return static_cast<std::size_t>(kind()); }
};

class table_column_info final : public variable_info {
public:
    explicit table_column_info(storage::column const& c) noexcept : c_ { std::addressof(c) } {}
    [[nodiscard]] variable_info_kind kind() const noexcept override { return variable_info_kind::table_column; }
    [[nodiscard]] storage::column const& column() const noexcept { return *c_; }
    [[nodiscard]] bool equals(td::variable::entity_type const& o) const noexcept override { return o.class_id() == class_id() && static_cast<table_column_info const&>(o).c_ == c_; }
    [[nodiscard]] std::size_t hash() const noexcept override { return std::hash<void const*> {}(c_); }
    std::ostream& print_to(std::ostream& o) const override { return o << "table_column(" << c_->simple_name() << ")"; }
private:
    storage::column const* c_;
};

class external_variable_info final : public variable_info {
public:
    explicit external_variable_info(tu::maybe_shared_ptr<variable::declaration const> d) noexcept : d_ { std::move(d) } {}
    [[nodiscard]] variable_info_kind kind() const noexcept override { return variable_info_kind::external_variable; }
    [[nodiscard]] variable::declaration const& declaration() const noexcept { return *d_; }
    [[nodiscard]] tu::maybe_shared_ptr<variable::declaration const> const& shared_declaration() const noexcept { return d_; }
    [[nodiscard]] bool equals(td::variable::entity_type const& o) const noexcept override { return o.class_id() == class_id() && static_cast<external_variable_info const&>(o).d_ == d_; }
    [[nodiscard]] std::size_t hash() const noexcept override { return std::hash<void const*> {}(d_.get()); }
    std::ostream& print_to(std::ostream& o) const override { return o << "external_variable(" << d_->name() << ")"; }
private:
    tu::maybe_shared_ptr<variable::declaration const> d_;
};

/// variables which are compared by their identity
class identity_variable_info final : public variable_info {
public:
    identity_variable_info(variable_info_kind k, std::string label) noexcept : k_ { k }, label_ { std::move(label) } {}
    [[nodiscard]] variable_info_kind kind() const noexcept override { return k_; }
    [[nodiscard]] std::string_view label() const noexcept { return label_; }
    [[nodiscard]] bool equals(td::variable::entity_type const& o) const noexcept override { return std::addressof(o) == this; }
    [[nodiscard]] std::size_t hash() const noexcept override { return std::hash<void const*> {}(this); }
    std::ostream& print_to(std::ostream& o) const override {
        o << k_ << "(" << label_;
        if (identity_printer_) identity_printer_(o, this); else if (label_.empty()) o << "@" << static_cast<void const*>(this);
        return o << ")";
    }
private:
    variable_info_kind k_;
    std::string label_;
};

/// descriptor entities which just hold an element
template<td::descriptor_kind K, class T>
class holder_info final : public td::element_entity<K> {
public:
    explicit holder_info(tu::maybe_shared_ptr<T const> e) noexcept : e_ { std::move(e) } {}
    [[nodiscard]] T const& get() const noexcept { return *e_; }
    [[nodiscard]] tu::maybe_shared_ptr<T const> const& shared() const noexcept { return e_; }
    [[nodiscard]] std::size_t class_id() const noexcept override { return 0; }
    [[nodiscard]] bool equals(td::element_entity<K> const& o) const noexcept override {
        auto* p = dynamic_cast<holder_info const*>(std::addressof(o));
        return p != nullptr && p->e_ == e_;
    }
    [[nodiscard]] std::size_t hash() const noexcept override { return std::hash<void const*> {}(e_.get()); }
    std::ostream& print_to(std::ostream& o) const override { return o << *e_; }
private:
    tu::maybe_shared_ptr<T const> e_;
};

using function_info = holder_info<td::descriptor_kind::function, function::declaration>;
using aggregate_function_info = holder_info<td::descriptor_kind::aggregate_function, aggregate::declaration>;
using schema_info = holder_info<td::descriptor_kind::schema, schema::declaration>;
using table_info = holder_info<td::descriptor_kind::storage, storage::table>;
using index_info = holder_info<td::descriptor_kind::relation, storage::index>;

[[nodiscard]] inline variable_info_kind kind_of(td::variable const& v) { return dynamic_cast<variable_info const&>(v.entity()).kind(); }

class factory {
public:
    // variables
    [[nodiscard]] td::variable operator()(storage::column const& c) const { return table_column(c); }
    [[nodiscard]] td::variable table_column(storage::column const& c) const { return td::variable { std::make_shared<table_column_info>(c) }; }
    [[nodiscard]] td::variable operator()(std::shared_ptr<variable::declaration> d) const { return external_variable(tu::maybe_shared_ptr<variable::declaration const> { std::shared_ptr<variable::declaration const> { std::move(d) } }); }
    [[nodiscard]] td::variable operator()(std::shared_ptr<variable::declaration const> d) const { return external_variable(std::move(d)); }
    [[nodiscard]] td::variable operator()(tu::maybe_shared_ptr<variable::declaration const> d) const { return external_variable(std::move(d)); }
    [[nodiscard]] td::variable operator()(variable::declaration const& d) const { return external_variable(d); }
    [[nodiscard]] td::variable external_variable(tu::maybe_shared_ptr<variable::declaration const> d) const { return td::variable { std::make_shared<external_variable_info>(std::move(d)) }; }
    [[nodiscard]] td::variable stream_variable(std::string_view label = {}) const { return identity(variable_info_kind::stream_variable, label); }
    [[nodiscard]] td::variable stream_variable(td::variable const& v) const { return identity(variable_info_kind::stream_variable, label(v)); }
    [[nodiscard]] td::variable local_variable(std::string_view label = {}) const { return identity(variable_info_kind::local_variable, label); }
    [[nodiscard]] td::variable local_variable(td::variable const& v) const { return identity(variable_info_kind::local_variable, label(v)); }
    [[nodiscard]] td::variable frame_variable(std::string_view label = {}) const { return identity(variable_info_kind::frame_variable, label); }
    [[nodiscard]] td::variable frame_variable(td::variable const& v) const { return identity(variable_info_kind::frame_variable, label(v)); }
    // relations
    [[nodiscard]] td::relation operator()(tu::maybe_shared_ptr<storage::index const> d) const { return index(std::move(d)); }
    [[nodiscard]] td::relation operator()(std::shared_ptr<storage::index const> d) const { return index(std::move(d)); }
    [[nodiscard]] td::relation operator()(std::shared_ptr<storage::index> d) const { return index(std::move(d)); }
    [[nodiscard]] td::relation operator()(storage::index const& d) const { return index(d); }
    [[nodiscard]] td::relation index(tu::maybe_shared_ptr<storage::index const> d) const { return td::relation { std::make_shared<index_info>(std::move(d)) }; }
    // functions
    [[nodiscard]] td::function operator()(std::shared_ptr<function::declaration const> d) const { return function(std::move(d)); }
    [[nodiscard]] td::function operator()(std::shared_ptr<function::declaration> d) const { return function(std::move(d)); }
    [[nodiscard]] td::function operator()(tu::maybe_shared_ptr<function::declaration const> d) const { return function(std::move(d)); }
    [[nodiscard]] td::function function(tu::maybe_shared_ptr<function::declaration const> d) const { return td::function { std::make_shared<function_info>(std::move(d)) }; }
    [[nodiscard]] td::aggregate_function operator()(std::shared_ptr<aggregate::declaration const> d) const { return aggregate_function(std::move(d)); }
    [[nodiscard]] td::aggregate_function operator()(std::shared_ptr<aggregate::declaration> d) const { return aggregate_function(std::move(d)); }
    [[nodiscard]] td::aggregate_function operator()(tu::maybe_shared_ptr<aggregate::declaration const> d) const { return aggregate_function(std::move(d)); }
    [[nodiscard]] td::aggregate_function aggregate_function(tu::maybe_shared_ptr<aggregate::declaration const> d) const { return td::aggregate_function { std::make_shared<aggregate_function_info>(std::move(d)) }; }
    // schemas and storages
    [[nodiscard]] td::schema operator()(std::shared_ptr<schema::declaration> d) const { return schema(std::shared_ptr<yugawara::schema::declaration const> { std::move(d) }); }
    [[nodiscard]] td::schema operator()(std::shared_ptr<schema::declaration const> d) const { return schema(std::move(d)); }
    [[nodiscard]] td::schema operator()(tu::maybe_shared_ptr<schema::declaration const> d) const { return schema(std::move(d)); }
    [[nodiscard]] td::schema schema(tu::maybe_shared_ptr<schema::declaration const> d) const { return td::schema { std::make_shared<schema_info>(std::move(d)) }; }
    [[nodiscard]] td::storage operator()(std::shared_ptr<storage::table const> d) const { return storage(std::move(d)); }
    [[nodiscard]] td::storage operator()(std::shared_ptr<storage::table> d) const { return storage(std::move(d)); }
    [[nodiscard]] td::storage operator()(tu::maybe_shared_ptr<storage::table const> d) const { return storage(std::move(d)); }
    [[nodiscard]] td::storage storage(tu::maybe_shared_ptr<storage::table const> d) const { return td::storage { std::make_shared<table_info>(std::move(d)) }; }
private:
    [[nodiscard]] static td::variable identity(variable_info_kind k, std::string_view label) { return td::variable { std::make_shared<identity_variable_info>(k, std::string { label }) }; }
    [[nodiscard]] static std::string label(td::variable const& v) {
        if (auto* p = dynamic_cast<identity_variable_info const*>(v.optional_entity().get())) return std::string { p->label() };
        if (auto* p = dynamic_cast<table_column_info const*>(v.optional_entity().get())) return std::string { p->column().simple_name() };
        return {};
    }
};

[[nodiscard]] inline variable_info const& unwrap(td::variable const& v) { return dynamic_cast<variable_info const&>(v.entity()); }

namespace details {
template<class T> struct entity_of;
template<> struct entity_of<storage::index> { using type = index_info; };
template<> struct entity_of<storage::table> { using type = table_info; };
template<> struct entity_of<function::declaration> { using type = function_info; };
template<> struct entity_of<aggregate::declaration> { using type = aggregate_function_info; };
template<> struct entity_of<schema::declaration> { using type = schema_info; };
template<class D> struct default_of;
template<> struct default_of<td::storage> { using type = storage::table; };
template<> struct default_of<td::relation> { using type = storage::index; };
template<> struct default_of<td::function> { using type = function::declaration; };
template<> struct default_of<td::aggregate_function> { using type = aggregate::declaration; };
template<> struct default_of<td::schema> { using type = schema::declaration; };
} // namespace details

template<class T, td::descriptor_kind K>
[[nodiscard]] tu::maybe_shared_ptr<T const> extract_shared(td::element<K> const& d) {
    auto* p = dynamic_cast<typename details::entity_of<T>::type const*>(d.optional_entity().get());
    if (!p) tu::throw_exception(std::invalid_argument("invalid descriptor"));
    return p->shared();
}
template<class T = void, td::descriptor_kind K, class = std::enable_if_t<std::is_void_v<T>>>
[[nodiscard]] auto extract_shared(td::element<K> const& d) { return extract_shared<typename details::default_of<td::element<K>>::type, K>(d); }

template<class T>
[[nodiscard]] tu::optional_ptr<T const> extract_if(td::variable const& d) {
    if constexpr (std::is_same_v<T, storage::column>) {
        if (auto* p = dynamic_cast<table_column_info const*>(d.optional_entity().get())) return p->column();
    } else {
        static_assert(std::is_same_v<T, variable::declaration>);
        if (auto* p = dynamic_cast<external_variable_info const*>(d.optional_entity().get())) return p->declaration();
    }
    return {};
}
template<class T>
[[nodiscard]] T const& extract(td::variable const& d) {
    auto p = extract_if<T>(d);
    if (!p) tu::throw_exception(std::invalid_argument("invalid descriptor"));
    return *p;
}
template<class T, td::descriptor_kind K, class = std::enable_if_t<K != td::descriptor_kind::variable>>
[[nodiscard]] T const& extract(td::element<K> const& d) {
    auto* p = dynamic_cast<typename details::entity_of<T>::type const*>(d.optional_entity().get());
    if (!p) tu::throw_exception(std::invalid_argument("invalid descriptor"));
    return p->get();
}
template<class T = void, td::descriptor_kind K, class = std::enable_if_t<std::is_void_v<T> && K != td::descriptor_kind::variable>>
[[nodiscard]] auto const& extract(td::element<K> const& d) { return extract<typename details::default_of<td::element<K>>::type, K>(d); }

} // namespace binding
} // namespace yugawara
