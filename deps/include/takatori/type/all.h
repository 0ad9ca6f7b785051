#pragma once
// Stand-in for takatori/type/*.h
#include <takatori/util/std_all.h>
#include <takatori/util/clonable.h>
#include <takatori/util/clone_tag.h>
#include <takatori/util/rvalue_ptr.h>
#include <takatori/util/sequence_view.h>
#include <takatori/util/downcast.h>

namespace takatori::type {

enum class type_kind {
    boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit,
    date, time_of_day, time_point, datetime_interval, array, record, unknown, row_reference, row_id,
    declared, extension, blob, clob, table,
};
inline std::string_view to_string_view(type_kind k) noexcept {
    static constexpr char const* names[] = {
        "boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit",
        "date", "time_of_day", "time_point", "datetime_interval", "array", "record", "unknown", "row_reference", "row_id",
        "declared", "extension", "blob", "clob", "table" };
    return names[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << to_string_view(k); }

class data {
public:
    data() = default;
    virtual ~data() = default;
    data(data const&) = delete;
    data& operator=(data const&) = delete;
    data(data&&) = delete;
    data& operator=(data&&) = delete;
    [[nodiscard]] virtual type_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) noexcept { return a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& o, data const& v) { return v.print_to(o); }
    [[nodiscard]] virtual std::size_t hash() const noexcept = 0;
protected:
    [[nodiscard]] virtual bool equals(data const& other) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
};

template<type_kind K>
class simple final : public data {
public:
    static constexpr type_kind tag = K;
    constexpr simple() = default;
    simple(::takatori::util::clone_tag_t, simple const&) noexcept {}
    simple(::takatori::util::clone_tag_t, simple&&) noexcept {}
    simple(simple const&) noexcept : data() {}
    simple(simple&&) noexcept : data() {}
    ~simple() override = default;
    simple& operator=(simple const&) noexcept { return *this; }
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] simple* clone() const& override { return new simple(); }
    [[nodiscard]] simple* clone() && override { return new simple(); }
    friend bool operator==(simple const&, simple const&) noexcept { return true; }
    friend bool operator!=(simple const&, simple const&) noexcept { return false; }
    [[nodiscard]] std::size_t hash() const noexcept override { return static_cast<std::size_t>(K); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag; }
    std::ostream& print_to(std::ostream& out) const override { return out << to_string_view(K) << "()"; }
};
using boolean = simple<type_kind::boolean>;
using int1 = simple<type_kind::int1>;
using int2 = simple<type_kind::int2>;
using int4 = simple<type_kind::int4>;
using int8 = simple<type_kind::int8>;
using float4 = simple<type_kind::float4>;
using float8 = simple<type_kind::float8>;
using date = simple<type_kind::date>;
using unknown = simple<type_kind::unknown>;
using row_id = simple<type_kind::row_id>;
using blob = simple<type_kind::blob>;
using clob = simple<type_kind::clob>;
using datetime_interval = simple<type_kind::datetime_interval>;

struct varying_t { explicit constexpr varying_t(bool e = true) noexcept : enabled { e } {} bool enabled; constexpr explicit operator bool() const noexcept { return enabled; } };
constexpr varying_t operator~(varying_t v) noexcept { return varying_t { !v.enabled }; }
inline constexpr varying_t varying { true };
struct with_time_zone_t { explicit constexpr with_time_zone_t(bool e = true) noexcept : enabled { e } {} bool enabled; constexpr explicit operator bool() const noexcept { return enabled; } };
constexpr with_time_zone_t operator~(with_time_zone_t v) noexcept { return with_time_zone_t { !v.enabled }; }
inline constexpr with_time_zone_t with_time_zone { true };

template<type_kind K>
class seq_type final : public data {
public:
    using size_type = std::size_t;
    static constexpr type_kind tag = K;
    explicit seq_type(std::optional<size_type> length = {}) noexcept : varying_ { false }, length_ { length } {}
    explicit seq_type(varying_t v, std::optional<size_type> length = {}) noexcept : varying_ { v.enabled }, length_ { length } {}
    seq_type(::takatori::util::clone_tag_t, seq_type const& o) noexcept : varying_ { o.varying_ }, length_ { o.length_ } {}
    seq_type(::takatori::util::clone_tag_t, seq_type&& o) noexcept : varying_ { o.varying_ }, length_ { o.length_ } {}
    seq_type(seq_type const& o) noexcept : data(), varying_ { o.varying_ }, length_ { o.length_ } {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] bool varying() const noexcept { return varying_; }
    [[nodiscard]] std::optional<size_type> length() const noexcept { return length_; }
    [[nodiscard]] seq_type* clone() const& override { return new seq_type(*this); }
    [[nodiscard]] seq_type* clone() && override { return new seq_type(*this); }
    friend bool operator==(seq_type const& a, seq_type const& b) noexcept { return a.varying_ == b.varying_ && a.length_ == b.length_; }
    friend bool operator!=(seq_type const& a, seq_type const& b) noexcept { return !(a == b); }
    [[nodiscard]] std::size_t hash() const noexcept override { return static_cast<std::size_t>(K) * 31 + length_.value_or(7) * 2 + (varying_ ? 1 : 0); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag && *this == static_cast<seq_type const&>(o); }
    std::ostream& print_to(std::ostream& out) const override {
        out << to_string_view(K) << "(" << (varying_ ? "varying, " : "") << "length=";
        if (length_) out << *length_; else out << "?";
        return out << ")";
    }
private:
    bool varying_;
    std::optional<size_type> length_;
};
using character = seq_type<type_kind::character>;
using octet = seq_type<type_kind::octet>;
using bit = seq_type<type_kind::bit>;

class decimal final : public data {
public:
    using size_type = std::size_t;
    static constexpr type_kind tag = type_kind::decimal;
    explicit decimal(std::optional<size_type> precision = {}, std::optional<size_type> scale = {}) noexcept : precision_ { precision }, scale_ { scale } {}
    template<class Tag, class = std::enable_if_t<std::is_same_v<Tag, ::takatori::util::clone_tag_t>>> decimal(Tag, decimal const& o) noexcept : decimal(o.precision_, o.scale_) {}
    decimal(decimal const& o) noexcept : data(), precision_ { o.precision_ }, scale_ { o.scale_ } {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::optional<size_type> precision() const noexcept { return precision_; }
    [[nodiscard]] std::optional<size_type> scale() const noexcept { return scale_; }
    [[nodiscard]] decimal* clone() const& override { return new decimal(*this); }
    [[nodiscard]] decimal* clone() && override { return new decimal(*this); }
    friend bool operator==(decimal const& a, decimal const& b) noexcept { return a.precision_ == b.precision_ && a.scale_ == b.scale_; }
    friend bool operator!=(decimal const& a, decimal const& b) noexcept { return !(a == b); }
    [[nodiscard]] std::size_t hash() const noexcept override { return precision_.value_or(77) * 131 + scale_.value_or(55); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag && *this == static_cast<decimal const&>(o); }
    std::ostream& print_to(std::ostream& out) const override {
        out << "decimal(precision="; if (precision_) out << *precision_; else out << "?";
        out << ", scale="; if (scale_) out << *scale_; else out << "?";
        return out << ")";
    }
private:
    std::optional<size_type> precision_;
    std::optional<size_type> scale_;
};

template<type_kind K>
class zoned_type final : public data {
public:
    static constexpr type_kind tag = K;
    explicit zoned_type(with_time_zone_t tz = ~type::with_time_zone) noexcept : tz_ { tz.enabled } {}
    zoned_type(::takatori::util::clone_tag_t, zoned_type const& o) noexcept : tz_ { o.tz_ } {}
    zoned_type(::takatori::util::clone_tag_t, zoned_type&& o) noexcept : tz_ { o.tz_ } {}
    zoned_type(zoned_type const& o) noexcept : data(), tz_ { o.tz_ } {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] bool with_time_zone() const noexcept { return tz_; }
    [[nodiscard]] zoned_type* clone() const& override { return new zoned_type(*this); }
    [[nodiscard]] zoned_type* clone() && override { return new zoned_type(*this); }
    friend bool operator==(zoned_type const& a, zoned_type const& b) noexcept { return a.tz_ == b.tz_; }
    friend bool operator!=(zoned_type const& a, zoned_type const& b) noexcept { return !(a == b); }
    [[nodiscard]] std::size_t hash() const noexcept override { return static_cast<std::size_t>(K) * 2 + (tz_ ? 1 : 0); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag && *this == static_cast<zoned_type const&>(o); }
    std::ostream& print_to(std::ostream& out) const override { return out << to_string_view(K) << "(tz=" << tz_ << ")"; }
private:
    bool tz_;
};
using time_of_day = zoned_type<type_kind::time_of_day>;
using time_point = zoned_type<type_kind::time_point>;

class table_column {
public:
    table_column(std::string name, std::shared_ptr<data const> type) : name_ { std::move(name) }, type_ { std::move(type) } {}
    table_column(std::string_view name, ::takatori::util::rvalue_ptr<data> type) : name_ { name }, type_ { ::takatori::util::clone_shared(type) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<data const> const& shared_type() const noexcept { return type_; }
    friend bool operator==(table_column const& a, table_column const& b) noexcept { return a.name_ == b.name_ && *a.type_ == *b.type_; }
    friend bool operator!=(table_column const& a, table_column const& b) noexcept { return !(a == b); }
private:
    std::string name_;
    std::shared_ptr<data const> type_;
};
class table final : public data {
public:
    static constexpr type_kind tag = type_kind::table;
    using column_type = table_column;
    explicit table(std::vector<column_type> columns) : columns_ { std::move(columns) } {}
    table(std::initializer_list<column_type> columns) : columns_ { columns } {}
    table(::takatori::util::clone_tag_t, table const& o) : columns_ { o.columns_ } {}
    table(::takatori::util::clone_tag_t, table&& o) : columns_ { std::move(o.columns_) } {}
    table(table const& o) : data(), columns_ { o.columns_ } {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::vector<column_type>& columns() noexcept { return columns_; }
    [[nodiscard]] std::vector<column_type> const& columns() const noexcept { return columns_; }
    [[nodiscard]] table* clone() const& override { return new table(*this); }
    [[nodiscard]] table* clone() && override { return new table(*this); }
    friend bool operator==(table const& a, table const& b) noexcept { return a.columns_ == b.columns_; }
    friend bool operator!=(table const& a, table const& b) noexcept { return !(a == b); }
    [[nodiscard]] std::size_t hash() const noexcept override { return columns_.size(); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag && *this == static_cast<table const&>(o); }
    std::ostream& print_to(std::ostream& out) const override {
        out << "table(";
        for (auto&& c : columns_) out << c.name() << ": " << c.type() << "; ";
        return out << ")";
    }
private:
    std::vector<column_type> columns_;
};

} // namespace takatori::type

template<> struct std::hash<::takatori::type::data> {
    std::size_t operator()(::takatori::type::data const& v) const noexcept { return v.hash(); }
};
