#pragma once
// Stand-in for takatori/descriptor/*.h
#include <takatori/util/std_all.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/document/region.h>

namespace takatori::descriptor {

enum class descriptor_kind { variable, relation, function, aggregate_function, declared_type, schema, storage };
inline std::ostream& operator<<(std::ostream& o, descriptor_kind k) {
    static constexpr char const* n[] = { "variable", "relation", "function", "aggregate_function", "declared_type", "schema", "storage" };
    return o << n[static_cast<std::size_t>(k)];
}

template<descriptor_kind K>
class element_entity {
public:
    element_entity() = default;
    virtual ~element_entity() = default;
    element_entity(element_entity const&) = delete;
    element_entity& operator=(element_entity const&) = delete;
    [[nodiscard]] virtual std::size_t class_id() const noexcept = 0;
    [[nodiscard]] virtual bool equals(element_entity const& other) const noexcept = 0;
    [[nodiscard]] virtual std::size_t hash() const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
    friend bool operator==(element_entity const& a, element_entity const& b) noexcept { return a.equals(b); }
    friend bool operator!=(element_entity const& a, element_entity const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& o, element_entity const& v) { return v.print_to(o); }
};

template<descriptor_kind K>
class element {
public:
    static constexpr descriptor_kind tag = K;
    using entity_type = element_entity<K>;
    element() = default;
    explicit element(std::shared_ptr<entity_type const> e) noexcept : e_ { std::move(e) } {}
    [[nodiscard]] descriptor_kind kind() const noexcept { return K; }
    [[nodiscard]] document::region& region() noexcept { return r_; }
    [[nodiscard]] document::region const& region() const noexcept { return r_; }
    [[nodiscard]] entity_type const& entity() const { BOOST_ASSERT(e_ != nullptr); return *e_; }
    [[nodiscard]] util::optional_ptr<entity_type const> optional_entity() const noexcept { return util::optional_ptr<entity_type const> { e_.get() }; }
    [[nodiscard]] std::shared_ptr<entity_type const> const& shared_entity() const noexcept { return e_; }
    [[nodiscard]] bool resolved() const noexcept { return e_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return e_ != nullptr; }
    friend bool operator==(element const& a, element const& b) noexcept {
        if (a.e_ == nullptr || b.e_ == nullptr) return a.e_ == b.e_;
        return a.e_ == b.e_ || *a.e_ == *b.e_;
    }
    friend bool operator!=(element const& a, element const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, element const& v) { if (v.e_) return o << *v.e_; return o << "(unresolved)"; }
private:
    std::shared_ptr<entity_type const> e_ {};
    document::region r_ {};
};
using variable = element<descriptor_kind::variable>;
using relation = element<descriptor_kind::relation>;
using function = element<descriptor_kind::function>;
using aggregate_function = element<descriptor_kind::aggregate_function>;
using declared_type = element<descriptor_kind::declared_type>;
using schema = element<descriptor_kind::schema>;
using storage = element<descriptor_kind::storage>;

} // namespace takatori::descriptor

template<takatori::descriptor::descriptor_kind K> struct std::hash<::takatori::descriptor::element<K>> {
    std::size_t operator()(::takatori::descriptor::element<K> const& v) const noexcept { return v.resolved() ? v.entity().hash() : 0; }
};
