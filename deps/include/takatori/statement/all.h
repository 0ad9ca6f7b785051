#pragma once
// Stand-in for takatori/statement/**.h
#include <takatori/util/std_all.h>
#include <takatori/util/enum_set.h>
#include <takatori/util/callback.h>
#include <takatori/descriptor/all.h>
#include <takatori/relation/all.h>

namespace takatori::statement {

using write_kind = ::takatori::relation::write_kind;


enum class statement_kind {
    execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, truncate_table,
    rename_table, rename_column, rename_index, empty, extension,
};
inline std::ostream& operator<<(std::ostream& o, statement_kind k) {
    static constexpr char const* n[] = { "execute", "write", "create_table", "drop_table", "create_index", "drop_index", "grant_table", "revoke_table", "truncate_table",
        "rename_table", "rename_column", "rename_index", "empty", "extension" };
    return o << n[static_cast<std::size_t>(k)];
}

class statement {
public:
    statement() = default;
    virtual ~statement() = default;
    statement(statement const&) = delete;
    statement& operator=(statement const&) = delete;
    [[nodiscard]] virtual statement_kind kind() const noexcept = 0;
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
    virtual std::ostream& print_to(std::ostream& o) const = 0;
    friend std::ostream& operator<<(std::ostream& o, statement const& v) { return v.print_to(o); }
private:
    document::region region_ {};
};

#define TAKATORI_STUB_STATEMENT(T) \
    static constexpr statement_kind tag = statement_kind::T; \
    [[nodiscard]] statement_kind kind() const noexcept override { return tag; } \
    ~T() override = default;

class empty final : public statement {
public:
    TAKATORI_STUB_STATEMENT(empty)
    empty() = default;
    std::ostream& print_to(std::ostream& o) const override { return o << "empty()"; }
};

class write final : public statement {
public:
    using column = descriptor::variable;
    using tuple_elements = util::reference_vector<scalar::expression>;
    class tuple {
    public:
        explicit tuple(util::reference_vector<scalar::expression> e) : e_ { std::move(e) } {}
        explicit tuple(std::vector<std::unique_ptr<scalar::expression>> e) : e_ { std::move(e) } {}
        [[nodiscard]] util::reference_vector<scalar::expression>& elements() noexcept { return e_; }
        [[nodiscard]] util::reference_vector<scalar::expression> const& elements() const noexcept { return e_; }
        friend std::ostream& operator<<(std::ostream& o, tuple const& v) { return o << v.e_; }
    private:
        util::reference_vector<scalar::expression> e_;
    };
    TAKATORI_STUB_STATEMENT(write)
    write(relation::write_kind k, descriptor::relation destination, std::vector<column> columns, std::vector<tuple> tuples) :
        operator_kind_ { k }, destination_ { std::move(destination) }, columns_ { std::move(columns) }, tuples_ { std::move(tuples) } {}
    TAKATORI_STUB_FIELD(relation::write_kind, operator_kind)
    TAKATORI_STUB_FIELD(descriptor::relation, destination)
    TAKATORI_STUB_FIELD(std::vector<column>, columns)
    TAKATORI_STUB_FIELD(std::vector<tuple>, tuples)
    std::ostream& print_to(std::ostream& o) const override { o << "write(" << operator_kind_ << ", " << destination_ << ", "; relation::details::prv(o, columns_) << ", "; return relation::details::prv(o, tuples_) << ")"; }
private:
    relation::write_kind operator_kind_;
    descriptor::relation destination_;
    std::vector<column> columns_;
    std::vector<tuple> tuples_;
};

class create_table final : public statement {
public:
    TAKATORI_STUB_STATEMENT(create_table)
    create_table(descriptor::schema schema, descriptor::storage definition, descriptor::relation primary_key) : schema_ { std::move(schema) }, definition_ { std::move(definition) }, primary_key_ { std::move(primary_key) } {}
    TAKATORI_STUB_FIELD(descriptor::schema, schema)
    TAKATORI_STUB_FIELD(descriptor::storage, definition)
    TAKATORI_STUB_FIELD(descriptor::relation, primary_key)
    std::ostream& print_to(std::ostream& o) const override { return o << "create_table(" << schema_ << ", " << definition_ << ", " << primary_key_ << ")"; }
private:
    descriptor::schema schema_;
    descriptor::storage definition_;
    descriptor::relation primary_key_;
};

class create_index final : public statement {
public:
    TAKATORI_STUB_STATEMENT(create_index)
    create_index(descriptor::schema schema, descriptor::relation definition) : schema_ { std::move(schema) }, definition_ { std::move(definition) } {}
    TAKATORI_STUB_FIELD(descriptor::schema, schema)
    TAKATORI_STUB_FIELD(descriptor::relation, definition)
    std::ostream& print_to(std::ostream& o) const override { return o << "create_index(" << schema_ << ", " << definition_ << ")"; }
private:
    descriptor::schema schema_;
    descriptor::relation definition_;
};

class drop_table final : public statement {
public:
    TAKATORI_STUB_STATEMENT(drop_table)
    drop_table(descriptor::schema schema, descriptor::storage target) : schema_ { std::move(schema) }, target_ { std::move(target) } {}
    TAKATORI_STUB_FIELD(descriptor::schema, schema)
    TAKATORI_STUB_FIELD(descriptor::storage, target)
    std::ostream& print_to(std::ostream& o) const override { return o << "drop_table(" << schema_ << ", " << target_ << ")"; }
private:
    descriptor::schema schema_;
    descriptor::storage target_;
};

class drop_index final : public statement {
public:
    TAKATORI_STUB_STATEMENT(drop_index)
    drop_index(descriptor::schema schema, descriptor::relation target) : schema_ { std::move(schema) }, target_ { std::move(target) } {}
    TAKATORI_STUB_FIELD(descriptor::schema, schema)
    TAKATORI_STUB_FIELD(descriptor::relation, target)
    std::ostream& print_to(std::ostream& o) const override { return o << "drop_index(" << schema_ << ", " << target_ << ")"; }
private:
    descriptor::schema schema_;
    descriptor::relation target_;
};

enum class truncate_table_option_kind { restart_identity };
inline std::ostream& operator<<(std::ostream& o, truncate_table_option_kind) { return o << "restart_identity"; }

class truncate_table final : public statement {
public:
    using option_kind = truncate_table_option_kind;
    using option_set_type = util::enum_set<truncate_table_option_kind, truncate_table_option_kind::restart_identity, truncate_table_option_kind::restart_identity>;
    TAKATORI_STUB_STATEMENT(truncate_table)
    explicit truncate_table(descriptor::storage target, option_set_type options = {}) : target_ { std::move(target) }, options_ { options } {}
    TAKATORI_STUB_FIELD(descriptor::storage, target)
    TAKATORI_STUB_FIELD(option_set_type, options)
    std::ostream& print_to(std::ostream& o) const override { return o << "truncate_table(" << target_ << ", " << options_ << ")"; }
private:
    descriptor::storage target_;
    option_set_type options_;
};

#define TAKATORI_STUB_RENAME(T, P, PT, Q, QT) \
class T final : public statement { \
public: \
    TAKATORI_STUB_STATEMENT(T) \
    T(descriptor::PT P, descriptor::QT Q, std::string replacement) : P##_ { std::move(P) }, Q##_ { std::move(Q) }, replacement_ { std::move(replacement) } {} \
    TAKATORI_STUB_FIELD(descriptor::PT, P) \
    TAKATORI_STUB_FIELD(descriptor::QT, Q) \
    TAKATORI_STUB_FIELD(std::string, replacement) \
    std::ostream& print_to(std::ostream& o) const override { return o << #T "(" << P##_ << ", " << Q##_ << ", " << replacement_ << ")"; } \
private: \
    descriptor::PT P##_; \
    descriptor::QT Q##_; \
    std::string replacement_; \
};
TAKATORI_STUB_RENAME(rename_table, schema, schema, target, storage)
TAKATORI_STUB_RENAME(rename_index, schema, schema, target, relation)
TAKATORI_STUB_RENAME(rename_column, table, storage, target, variable)

enum class authorization_user_kind { specified, current_user, all_users };
inline std::ostream& operator<<(std::ostream& o, authorization_user_kind k) { static constexpr char const* n[] = { "specified", "current_user", "all_users" }; return o << n[static_cast<std::size_t>(k)]; }
enum class table_action_kind { control, select, insert, update, delete_ };
inline std::ostream& operator<<(std::ostream& o, table_action_kind k) { static constexpr char const* n[] = { "control", "select", "insert", "update", "delete" }; return o << n[static_cast<std::size_t>(k)]; }

namespace details {
class table_privilege_action {
public:
    table_privilege_action(table_action_kind k) : k_ { k } {} // NOLINT
    [[nodiscard]] table_action_kind action_kind() const noexcept { return k_; }
    friend bool operator==(table_privilege_action a, table_privilege_action b) noexcept { return a.k_ == b.k_; }
    friend bool operator!=(table_privilege_action a, table_privilege_action b) noexcept { return a.k_ != b.k_; }
    friend std::ostream& operator<<(std::ostream& o, table_privilege_action v) { return o << v.k_; }
private:
    table_action_kind k_;
};
class table_authorization_entry {
public:
    table_authorization_entry(authorization_user_kind k, std::string id, std::vector<table_privilege_action> p) : user_kind_ { k }, authorization_identifier_ { std::move(id) }, privileges_ { std::move(p) } {}
    [[nodiscard]] authorization_user_kind user_kind() const noexcept { return user_kind_; }
    [[nodiscard]] std::string_view authorization_identifier() const noexcept { return authorization_identifier_; }
    TAKATORI_STUB_FIELD(std::vector<table_privilege_action>, privileges)
    friend std::ostream& operator<<(std::ostream& o, table_authorization_entry const& v) { o << v.user_kind_ << ":" << v.authorization_identifier_ << ":"; return relation::details::prv(o, v.privileges_); }
private:
    authorization_user_kind user_kind_;
    std::string authorization_identifier_;
    std::vector<table_privilege_action> privileges_;
};
class table_privilege_element {
public:
    table_privilege_element(descriptor::storage target, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> e) : table_ { std::move(target) }, default_privileges_ { std::move(d) }, authorization_entries_ { std::move(e) } {}
    TAKATORI_STUB_FIELD(descriptor::storage, table)
    TAKATORI_STUB_FIELD(std::vector<table_privilege_action>, default_privileges)
    TAKATORI_STUB_FIELD(std::vector<table_authorization_entry>, authorization_entries)
    friend std::ostream& operator<<(std::ostream& o, table_privilege_element const& v) { o << v.table_ << " default="; relation::details::prv(o, v.default_privileges_) << " entries="; return relation::details::prv(o, v.authorization_entries_); }
private:
    descriptor::storage table_;
    std::vector<table_privilege_action> default_privileges_;
    std::vector<table_authorization_entry> authorization_entries_;
};
} // namespace details

#define TAKATORI_STUB_PRIV(T) \
class T final : public statement { \
public: \
    using element_type = details::table_privilege_element; \
    TAKATORI_STUB_STATEMENT(T) \
    explicit T(std::vector<details::table_privilege_element> elements) : elements_ { std::move(elements) } {} \
    TAKATORI_STUB_FIELD(std::vector<details::table_privilege_element>, elements) \
    std::ostream& print_to(std::ostream& o) const override { o << #T "("; return relation::details::prv(o, elements_) << ")"; } \
private: \
    std::vector<details::table_privilege_element> elements_; \
};
TAKATORI_STUB_PRIV(grant_table)
TAKATORI_STUB_PRIV(revoke_table)

template<class Callback, class E, class... Args>
inline decltype(auto) dispatch(Callback&& callback, E&& e, Args&&... args) {
    using namespace ::takatori::util;
    switch (e.kind()) {
#define TAKATORI_STUB_CASE(T) case statement_kind::T: return polymorphic_callback<T>(std::forward<Callback>(callback), std::forward<E>(e), std::forward<Args>(args)...);
        TAKATORI_STUB_CASE(write) TAKATORI_STUB_CASE(create_table) TAKATORI_STUB_CASE(drop_table) TAKATORI_STUB_CASE(create_index) TAKATORI_STUB_CASE(drop_index)
        TAKATORI_STUB_CASE(grant_table) TAKATORI_STUB_CASE(revoke_table) TAKATORI_STUB_CASE(truncate_table) TAKATORI_STUB_CASE(rename_table)
        TAKATORI_STUB_CASE(rename_column) TAKATORI_STUB_CASE(rename_index) TAKATORI_STUB_CASE(empty)
        default: break;
#undef TAKATORI_STUB_CASE
    }
    std::abort();
}

} // namespace takatori::statement
