#include "canon.h"

#include "reflect.inc"

#include <algorithm>
#include <cstring>
#include <tuple>
#include <sstream>
#include <typeindex>
#include <unordered_map>

namespace sim {

namespace {

template<class T> struct is_unique : std::false_type {};
template<class T> struct is_unique<std::unique_ptr<T>> : std::true_type {};
template<class T> struct is_vector : std::false_type {};
template<class T> struct is_vector<std::vector<T>> : std::true_type {};
template<class T> struct is_optional : std::false_type {};
template<class T> struct is_optional<std::optional<T>> : std::true_type {};
template<class T> struct is_regioned : std::false_type {};
template<class T> struct is_regioned<ast::common::regioned<T>> : std::true_type {};
template<class T> struct is_wrapper : std::false_type {};
template<class T> struct is_wrapper<ast::common::clone_wrapper<T>> : std::true_type {};

template<class E> struct enum_values { static constexpr E list[1] { static_cast<E>(0) }; static constexpr std::size_t n = 0; static constexpr char const* name = "enum"; };
#define M_(T, ...) template<> struct enum_values<T> { static constexpr T list[] { __VA_ARGS__ }; static constexpr std::size_t n = sizeof(list) / sizeof(T); static constexpr char const* name = #T; };
} // namespace
#define M_ENUM(T, ...) namespace { M_(T, __VA_ARGS__) }
REFLECT_ENUMS(M_ENUM)

namespace {

/// changes a list or an optional value in one of several ways; reports whether the result is what value semantics demand
using edit_fn = std::function<std::string(u64)>;

/// callbacks of a walk over the (mutable) properties of a syntax tree
class walker {
public:
    virtual ~walker() = default;
    virtual void begin(char const* type, void* addr, ast::node_region* region, bool node) = 0;
    virtual void end() = 0;
    virtual void prop(char const* name) = 0;
    virtual void region(ast::node_region& r, bool own) = 0;     // own: of the enclosing object
    virtual void boolean(bool& v) = 0;
    virtual void integer(long long v, std::function<void(long long)> const& set) = 0;
    virtual void string(std::string& v) = 0;
    virtual void enumeration(char const* type, std::size_t index, std::size_t n, long long raw, std::function<void(std::size_t)> const& set) = 0;
    virtual void null() = 0;
    virtual void sequence_begin(std::size_t n, edit_fn const& edit) = 0;
    virtual void sequence_end() = 0;
    virtual void optional(bool present, edit_fn const& edit) = 0;
    virtual void child(void*, child_ops const&) {}
    virtual void kind(long long) {}
    virtual void object(void*, build_ops const&) {}
};

void walk_node(walker& w, ast::node& n);

template<class T> void walk(walker& w, T& v);

template<class T, class E, class = void> struct has_tags : std::false_type {};
template<class T, class E> struct has_tags<T, E, std::enable_if_t<std::is_enum_v<E> && std::is_same_v<decltype(T::tags.contains(std::declval<E>())), bool>>> : std::true_type {};

template<class T> struct props {
    walker& w;
    /// a kind: one which the class accepts
    template<class E> void kind_of(E& m) const {
        std::vector<E> list {};
        for (std::size_t i = 0; i < enum_values<E>::n; ++i) if (T::tags.contains(enum_values<E>::list[i])) list.push_back(enum_values<E>::list[i]);
        auto at = static_cast<std::size_t>(std::find(list.begin(), list.end(), m) - list.begin());
        w.enumeration(enum_values<E>::name, at, list.size(), static_cast<long long>(m), [&](std::size_t i) { if (i < list.size()) m = list[i]; });
    }
    template<class V> void operator()(char const* name, V& v) const {
        w.prop(name);
        if constexpr (std::is_same_v<std::remove_const_t<V>, ast::node_region>) w.region(const_cast<ast::node_region&>(v), std::strcmp(name, "region") == 0);
        else if constexpr (has_tags<T, std::remove_const_t<V>>::value) {
            kind_of(const_cast<std::remove_const_t<V>&>(v));
        } else if constexpr (is_regioned<std::remove_const_t<V>>::value) {
            using R = std::remove_const_t<V>;
            auto& r = const_cast<R&>(v);
            if constexpr (has_tags<T, typename R::value_type>::value) {
                w.begin("r", &r, &r.region(), false);
                w.prop("value");
                kind_of(r.value());
                w.prop("region");
                w.region(r.region(), true);
                w.end();
            } else walk(w, r);
        }
        else walk(w, const_cast<std::remove_const_t<V>&>(v));
    }
};

template<class T> std::string const& short_name() {
    static std::string const s = [](std::string r) {
        auto p = r.find("T = "); if (p == std::string::npos) return r;
        auto e = r.find_first_of(";]", p);
        r = r.substr(p + 4, e - p - 4);
        std::string const pre = "mizugaki::ast::";
        if (r.compare(0, pre.size(), pre) == 0) r = r.substr(pre.size());
        return r;
    }(__PRETTY_FUNCTION__);
    return s;
}

template<class T, class = void> struct has_kind : std::false_type {};
template<class T> struct has_kind<T, std::void_t<decltype(std::declval<T const&>().node_kind())>> : std::true_type {};

template<class T> build_ops const& build_ops_of();

template<class T> void walk_object(walker& w, T& v, bool node) {
    ast::node_region* r = nullptr;
    if constexpr (ast::has_region_v<T>) r = &v.region();
    w.begin(short_name<T>().c_str(), &v, r, node);
    if constexpr (has_kind<T>::value) { w.prop("kind"); w.kind(static_cast<long long>(v.node_kind())); }
    if constexpr (!std::is_same_v<T, ast::compilation_unit>) w.object(&v, build_ops_of<T>());
    reflect::each(v, props<T> { w });
    w.end();
}

template<class T> std::string dump_of(T& v);

template<class E> bool eq_of(void* a, void* b) { E const& x = **static_cast<std::unique_ptr<E>*>(a); E const& y = **static_cast<std::unique_ptr<E>*>(b); return x == y; }
template<class E> bool ne_of(void* a, void* b) { E const& x = **static_cast<std::unique_ptr<E>*>(a); E const& y = **static_cast<std::unique_ptr<E>*>(b); return x != y; }
template<class E> ast::node& node_of(void* a) { return **static_cast<std::unique_ptr<E>*>(a); }
template<class E> void replace_by_copy(void* a, void* b) {
    auto c = ::takatori::util::clone_unique(**static_cast<std::unique_ptr<E>*>(b));
    *static_cast<std::unique_ptr<E>*>(a) = std::move(c);
}
template<class E> child_ops const& ops_of() {
    static child_ops const o { short_name<E>().c_str(), eq_of<E>, ne_of<E>, node_of<E>, replace_by_copy<E> };
    return o;
}

/// copies one element the way a client would
template<class E> E copy_of(E const& e) {
    if constexpr (is_unique<E>::value) return ::takatori::util::clone_unique(e); else return e;
}
template<class E> std::vector<std::string> dumps_of(std::vector<E>& v) { std::vector<std::string> r {}; for (auto&& e : v) r.push_back(dump_of(e)); return r; }

template<class E> std::string edit_vector(std::vector<E>& v, u64 salt) {
    if (v.empty()) return {};
    auto model = dumps_of(v);
    auto i = static_cast<std::ptrdiff_t>(salt / 8 % v.size()), j = static_cast<std::ptrdiff_t>(salt / 64 % v.size());
    char const* what = "";
    {
        rt::armed a {};
        switch (salt % 7) {
            case 0: case 1: what = "erase"; v.erase(v.begin() + i); model.erase(model.begin() + i); break;
            case 2: what = "append a copy"; if (v.size() < 12) { v.push_back(copy_of<E>(v[static_cast<std::size_t>(i)])); model.push_back(model[static_cast<std::size_t>(i)]); } break;
            case 3: what = "insert a copy"; if (v.size() < 12) { auto c = copy_of<E>(v[static_cast<std::size_t>(i)]); v.insert(v.begin() + j, std::move(c)); auto m = model[static_cast<std::size_t>(i)]; model.insert(model.begin() + j, std::move(m)); } break;
            case 4: what = "swap"; if (i != j) { std::swap(v[static_cast<std::size_t>(i)], v[static_cast<std::size_t>(j)]); std::swap(model[static_cast<std::size_t>(i)], model[static_cast<std::size_t>(j)]); } break;
            case 5:
                what = "assign a copy";
                if constexpr (is_unique<E>::value) v[static_cast<std::size_t>(i)] = copy_of<E>(v[static_cast<std::size_t>(j)]);
                else { auto& r = (v[static_cast<std::size_t>(i)] = v[static_cast<std::size_t>(j)]); if (&r != &v[static_cast<std::size_t>(i)]) return "assignment of an element of a list did not return the element"; }
                model[static_cast<std::size_t>(i)] = model[static_cast<std::size_t>(j)];
                break;
            default: what = "rotate"; std::rotate(v.begin(), v.begin() + i, v.end()); std::rotate(model.begin(), model.begin() + i, model.end()); break;
        }
    }
    auto now = dumps_of(v);
    if (now != model) {
        std::string e {}, g {};
        for (auto&& x : model) e += x + "; ";
        for (auto&& x : now) g += x + "; ";
        return std::string { what } + " in a list of " + short_name<E>() + "\n  expected " + e.substr(0, 1500) + "\n  actual   " + g.substr(0, 1500);
    }
    return {};
}

template<class T> void walk(walker& w, T& v) {
    if constexpr (is_unique<T>::value) {
        if (v) { w.child(&v, ops_of<typename T::element_type>()); walk_node(w, *v); } else w.null();
    } else if constexpr (is_wrapper<T>::value) {
        walk(w, *v);
    } else if constexpr (is_vector<T>::value) {
        using V = typename T::value_type;
        if constexpr (is_vector<V>::value || std::is_same_v<V, bool>) w.sequence_begin(v.size(), [](u64) { return std::string {}; });
        else w.sequence_begin(v.size(), [&v](u64 salt) { return edit_vector(v, salt); });
        for (std::size_t i = 0; i < v.size(); ++i) walk(w, v[i]);
        w.sequence_end();
    } else if constexpr (is_optional<T>::value) {
        w.optional(v.has_value(), [&v](u64 salt) -> std::string {
            using V = typename T::value_type;
            if (!v.has_value()) return {};
            if (salt % 2 == 0) { rt::armed a {}; v.reset(); return {}; }
            if constexpr (!is_unique<V>::value && !is_vector<V>::value) {
                // replaced by a copy, and assigned back
                auto before = dump_of(*v);
                std::optional<V> c {};
                { rt::armed a {}; c.emplace(*v); v.reset(); v.emplace(std::move(*c)); c.emplace(*v); *v = *c; }
                auto after = dump_of(*v);
                if (before != after || dump_of(*c) != before) return "an optional " + short_name<V>() + " changed when it was copied: " + before.substr(0, 1500) + " to " + after.substr(0, 1500);
            }
            return {};
        });
        if (v.has_value()) walk(w, *v);
    } else if constexpr (is_regioned<T>::value) {
        w.begin("r", &v, &v.region(), false);
        w.prop("value");
        walk(w, v.value());
        w.prop("region");
        w.region(v.region(), true);
        w.end();
    } else if constexpr (std::is_same_v<T, ast::node_region>) {
        w.region(v, false);
    } else if constexpr (std::is_same_v<T, bool>) {
        w.boolean(v);
    } else if constexpr (std::is_enum_v<T>) {
        using E = enum_values<T>;
        std::size_t at = E::n;
        for (std::size_t i = 0; i < E::n; ++i) if (E::list[i] == v) at = i;
        w.enumeration(E::name, at, E::n, static_cast<long long>(v), [&](std::size_t i) { if (i < E::n) v = E::list[i]; });
    } else if constexpr (std::is_integral_v<T>) {
        w.integer(static_cast<long long>(v), [&](long long x) { v = static_cast<T>(x); });
    } else if constexpr (std::is_same_v<T, std::string>) {
        w.string(v);
    } else if constexpr (std::is_base_of_v<ast::node, T>) {
        walk_node(w, v);
    } else {
        walk_object(w, v, false);
    }
}

// documents are not part of the tree
void walk(walker&, ::takatori::util::maybe_shared_ptr<::takatori::document::document const>&) {}

template<ast::literal::kind K> void as_special(walker& w, ast::node& n) {
    static char const* const name = K == ast::literal::kind::null ? "literal::null" : K == ast::literal::kind::empty ? "literal::empty" : "literal::default_";
    auto& v = static_cast<ast::literal::special<K>&>(n);
    w.begin(name, &n, &v.region(), true);
    w.prop("region");
    w.region(v.region(), true);
    w.end();
}
using node_fn = void (*)(walker&, ast::node&);
template<class T> void as_node(walker& w, ast::node& n) { walk_object(w, static_cast<T&>(n), true); }
std::unordered_map<std::type_index, node_fn> const& node_table() {
    static std::unordered_map<std::type_index, node_fn> const t {
#define M_NODE(T) { typeid(T), as_node<T> },
        REFLECT_NODES(M_NODE)
        { typeid(ast::literal::special<ast::literal::kind::null>), as_special<ast::literal::kind::null> },
        { typeid(ast::literal::special<ast::literal::kind::empty>), as_special<ast::literal::kind::empty> },
        { typeid(ast::literal::special<ast::literal::kind::default_>), as_special<ast::literal::kind::default_> },
    };
    return t;
}

void walk_node(walker& w, ast::node& n) {
    auto i = node_table().find(typeid(n));
    if (i == node_table().end()) throw std::logic_error(std::string { "unknown node class " } + typeid(n).name());
    i->second(w, n);
}

class dumper : public walker {
public:
    dumper(regions m, token_map const* t) : mode_ { m }, map_ { t } {}
    std::string out {};
    void begin(char const* type, void*, ast::node_region*, bool) override { out += type; out += '('; }
    void end() override { out += ')'; }
    void prop(char const* name) override { pending_ = name; if (std::strcmp(name, "region") != 0) flush(); }
    void region(ast::node_region& r, bool own) override {
        if (mode_ == regions::none || (mode_ == regions::properties && own)) return;
        flush();
        if (mode_ != regions::tokens) { if (!r) out += "@?"; else { out += '@'; out += std::to_string(r.begin); out += '-'; out += std::to_string(r.end); } }
        else out += map_->name(r);
        out += ' ';
    }
    void boolean(bool& v) override { out += v ? "true " : "false "; }
    void integer(long long v, std::function<void(long long)> const&) override { out += std::to_string(v); out += ' '; }
    void string(std::string& v) override { out += '"'; out += escape(v); out += "\" "; }
    void enumeration(char const*, std::size_t i, std::size_t n, long long raw, std::function<void(std::size_t)> const&) override { out += '#'; out += std::to_string(raw); if (i == n && n > 0) out += '!'; out += ' '; }
    void null() override { out += "- "; }
    void kind(long long v) override { out += std::to_string(v); out += ' '; }
    void sequence_begin(std::size_t, edit_fn const&) override { out += '['; }
    void sequence_end() override { out += ']'; }
    void optional(bool p, edit_fn const&) override { if (!p) out += "~ "; }
private:
    regions mode_;
    token_map const* map_;
    char const* pending_ { nullptr };
    void flush() { if (pending_) { out += pending_; out += '='; pending_ = nullptr; } }
};

template<class T> std::string dump_of(T& v) { dumper d { regions::absolute, nullptr }; walk(d, v); return std::move(d.out); }

// ---------------------------------------------------------------- construction

/// a copy of the value of a property
template<class V> V own(V const& v) {
    if constexpr (is_unique<V>::value) return v ? ::takatori::util::clone_unique(*v) : nullptr;
    else if constexpr (is_vector<V>::value) { V r {}; r.reserve(v.size()); for (auto&& e : v) r.push_back(own(e)); return r; }
    else if constexpr (std::is_copy_constructible_v<V>) return v;
    else if constexpr (is_optional<V>::value) { V r {}; if (v) r.emplace(own(*v)); return r; }
    else return V { ::takatori::util::clone_tag, v };
}
template<class T> struct is_list : std::false_type {};
template<class T> struct is_list<std::vector<T>> : std::bool_constant<!std::is_same_v<T, bool>> {};
template<class T> struct argument;
template<class V> struct argument<reflect::by_value<V>> {
    std::remove_const_t<V> part;
    static constexpr bool possible = true;
    explicit argument(reflect::by_value<V> const& o) : part(own<std::remove_const_t<V>>(o.v)) {}
    [[nodiscard]] bool ready() const { return true; }
    std::remove_const_t<V>&& get() { return std::move(part); }
};
template<class V> struct argument<reflect::by_moved<V>> {
    std::remove_const_t<V> part;
    explicit argument(reflect::by_moved<V> const& o) : part(own<std::remove_const_t<V>>(o.v)) {}
    [[nodiscard]] bool ready() const { if constexpr (is_unique<std::remove_const_t<V>>::value) return part != nullptr; else return true; }
    auto&& get() { if constexpr (is_unique<std::remove_const_t<V>>::value) return std::move(*part); else return std::move(part); }
};
template<class V> struct argument<reflect::by_pointer<V>> {
    std::remove_const_t<V> part;
    explicit argument(reflect::by_pointer<V> const& o) : part(own<std::remove_const_t<V>>(o.v)) {}
    [[nodiscard]] bool ready() const { return true; }
    auto get() {
        using P = std::remove_const_t<V>;
        if constexpr (is_optional<P>::value) { using E = typename P::value_type; return ::takatori::util::rvalue_ptr<E> { part ? std::addressof(*part) : nullptr }; }
        else { using E = typename P::element_type; return ::takatori::util::rvalue_ptr<E> { part.get() }; }
    }
};
template<class V> struct argument<reflect::by_list<V>> {
    using list = std::remove_const_t<V>;
    static auto& pick(typename list::value_type& e) { if constexpr (is_unique<typename list::value_type>::value) return *e; else return e; }
    static bool present(typename list::value_type const& e) { if constexpr (is_unique<typename list::value_type>::value) return e != nullptr; else { (void) e; return true; } }
    using element = std::remove_reference_t<decltype(pick(std::declval<typename list::value_type&>()))>;
    using wrapper = ::takatori::util::rvalue_reference_wrapper<element>;
    list part;
    std::vector<wrapper> wrappers {};
    explicit argument(reflect::by_list<V> const& o) : part(own<list>(o.v)) { wrappers.reserve(part.size()); for (auto&& e : part) if (present(e)) wrappers.emplace_back(std::move(pick(e))); }
    [[nodiscard]] bool ready() const { return wrappers.size() == part.size(); }
    /// an initializer list whose length is known now only
    std::initializer_list<wrapper> get() {
        struct layout { wrapper const* begin; std::size_t size; } l { wrappers.data(), wrappers.size() };
        static_assert(sizeof(layout) == sizeof(std::initializer_list<wrapper>));
        std::initializer_list<wrapper> r {};
        std::memcpy(static_cast<void*>(&r), &l, sizeof l);
        return r;
    }
};
template<class A, class = void> struct is_possible : std::false_type {};
template<class A> struct is_possible<A, std::void_t<decltype(std::declval<argument<A>&>().get())>> : std::true_type {};
template<class V> struct is_possible<reflect::by_list<V>> : std::bool_constant<is_list<std::remove_const_t<V>>::value> {};
template<class V> struct is_possible<reflect::by_pointer<V>> : std::bool_constant<is_unique<std::remove_const_t<V>>::value || is_optional<std::remove_const_t<V>>::value> {};
template<class T, bool possible, class... A> struct can_build : std::false_type {};
template<class T, class... A> struct can_build<T, true, A...> : std::is_constructible<T, decltype(std::declval<argument<A>&>().get())...> {};

template<class T> struct builder {
    T& origin;
    std::size_t which;
    std::size_t count { 0 };
    std::string problem {};
    template<class... A> void constructor(bool full, A... a) {
        if constexpr (can_build<T, (is_possible<A>::value && ...), A...>::value) {
            if (count++ != which) return;
            std::tuple<argument<A>...> parts { argument<A> { a }... };
            if (!std::apply([](auto&&... x) { return (x.ready() && ...); }, parts)) return;
            std::unique_ptr<T> made {};
            // NOTE: some combinations of values are refused
            try { std::apply([&](auto&&... x) { rt::armed on {}; made.reset(new T(x.get()...)); }, parts); } catch (std::invalid_argument const&) { return; }
            auto expected = dump_of(origin), result = dump_of(*made);
            if (full && expected != result) problem = "a " + short_name<T>() + " which was built from the values of another differs: " + expected.substr(0, 1000) + " and " + result.substr(0, 1000);
            rt::armed on {};
            made.reset();
        } else (void) full;
    }
};
template<class T> std::size_t constructors_of(void* o) { builder<T> b { *static_cast<T*>(o), ~std::size_t { 0 } }; reflect::build(*static_cast<T*>(o), b); return b.count; }
template<class T> std::string build_of(void* o, std::size_t which) { builder<T> b { *static_cast<T*>(o), which }; reflect::build(*static_cast<T*>(o), b); return b.problem; }
template<class T> build_ops const& build_ops_of() { static build_ops const o { short_name<T>().c_str(), constructors_of<T>, build_of<T> }; return o; }

/// the objects of a tree
class object_finder : public walker {
public:
    std::vector<std::pair<void*, build_ops const*>> list {};
    void begin(char const*, void*, ast::node_region*, bool) override {}
    void end() override {}
    void prop(char const*) override {}
    void region(ast::node_region&, bool) override {}
    void boolean(bool&) override {}
    void integer(long long, std::function<void(long long)> const&) override {}
    void string(std::string&) override {}
    void enumeration(char const*, std::size_t, std::size_t, long long, std::function<void(std::size_t)> const&) override {}
    void null() override {}
    void sequence_begin(std::size_t, edit_fn const&) override {}
    void sequence_end() override {}
    void optional(bool, edit_fn const&) override {}
    void object(void* o, build_ops const& b) override { list.emplace_back(o, &b); }
};

/// the children of a tree held by pointers
class child_finder : public walker {
public:
    std::vector<std::pair<void*, child_ops const*>> list {};
    void begin(char const*, void*, ast::node_region*, bool) override {}
    void end() override {}
    void prop(char const*) override {}
    void region(ast::node_region&, bool) override {}
    void boolean(bool&) override {}
    void integer(long long, std::function<void(long long)> const&) override {}
    void string(std::string&) override {}
    void enumeration(char const*, std::size_t, std::size_t, long long, std::function<void(std::size_t)> const&) override {}
    void null() override {}
    void sequence_begin(std::size_t, edit_fn const&) override {}
    void sequence_end() override {}
    void optional(bool, edit_fn const&) override {}
    void child(void* p, child_ops const& o) override { list.emplace_back(p, &o); }
};

/// counts places, and changes one
class mutator : public walker {
public:
    mutator(std::size_t target, u64 salt) : target_ { target }, salt_ { salt } {}
    std::size_t leaves { 0 };
    std::string done {};
    std::function<std::string()> after {};
    void begin(char const* type, void*, ast::node_region*, bool) override { types_.emplace_back(type); }
    void end() override { types_.pop_back(); }
    void prop(char const* name) override { prop_ = name; }
    void region(ast::node_region&, bool) override {}
    void boolean(bool& v) override { if (hit()) { v = !v; note("bool"); } }
    void integer(long long v, std::function<void(long long)> const& set) override { if (hit()) { set(v + 1 + static_cast<long long>(salt_ % 3)); note("integer"); } }
    void string(std::string& v) override {
        if (!hit()) return;
        note("string");
        switch (salt_ % 4) {
            case 0: v += "x"; break;
            case 1: if (v.empty()) v = "y"; else v[salt_ / 4 % v.size()] = static_cast<char>(v[salt_ / 4 % v.size()] ^ 1); break;
            case 2: if (v.empty()) v = "z"; else v.pop_back(); break;
            default: v.insert(0, "w"); break;
        }
    }
    void enumeration(char const* type, std::size_t i, std::size_t n, long long, std::function<void(std::size_t)> const& set) override {
        if (prop_ == "user_kind" || (types_.size() > 1 && types_[types_.size() - 2] == "statement::privilege_user")) return;   // decides whether there is a name
        if (n < 2 || prop_ == "node_kind") return;
        if (!hit()) return;
        note("enum");
        std::size_t to = salt_ % (n - 1);
        if (to >= i) ++to;
        set(to);
    }
    void null() override {}
    void sequence_begin(std::size_t n, edit_fn const& edit) override {
        if (n == 0) return;
        if (hit()) { note("sequence"); after = [edit, this] { return edit(salt_); }; }
    }
    void sequence_end() override {}
    void optional(bool p, edit_fn const& edit) override {
        if (!p) return; // presence alone; construction of a value is not always possible
        if (hit()) { note("optional"); after = [edit, this] { return edit(salt_); }; }
    }
    void child(void* p, child_ops const& o) override { if (hit()) { note("child"); target = p; ops = &o; } }
    void* target { nullptr };
    child_ops const* ops { nullptr };
private:
    std::size_t target_;
    u64 salt_;
    std::string prop_ {};
    std::vector<std::string> types_ {};
    bool hit() { return leaves++ == target_; }
    void note(char const* what) { done = (types_.empty() ? std::string {} : types_.back()) + "." + prop_ + " (" + what + ")"; }
};

class region_mutator : public walker {
public:
    explicit region_mutator(std::size_t t) : target_ { t } {}
    std::size_t count { 0 };
    void begin(char const*, void*, ast::node_region*, bool) override {}
    void end() override {}
    void prop(char const*) override {}
    void region(ast::node_region& r, bool) override { if (count++ == target_) r = { 424242, 424243 }; }
    void boolean(bool&) override {}
    void integer(long long, std::function<void(long long)> const&) override {}
    void string(std::string&) override {}
    void enumeration(char const*, std::size_t, std::size_t, long long, std::function<void(std::size_t)> const&) override {}
    void null() override {}
    void sequence_begin(std::size_t, edit_fn const&) override {}
    void sequence_end() override {}
    void optional(bool, edit_fn const&) override {}
private:
    std::size_t target_;
};

class collector : public walker {
public:
    std::vector<region_entry> list {};
    std::vector<void const*> addrs {};
    std::size_t nodes { 0 };
    std::size_t level { 0 };
    std::size_t depth { 0 };
    void begin(char const* type, void* a, ast::node_region* r, bool node) override {
        node_.push_back(node);
        if (node) { ++nodes; depth = std::max(depth, ++level); }
        addrs.push_back(a);
        list.push_back({ r ? *r : ast::node_region {}, type, stack_.empty() ? -1 : stack_.back(), {}, node });
        stack_.push_back(static_cast<int>(list.size()) - 1);
    }
    void end() override { stack_.pop_back(); if (node_.back()) --level; node_.pop_back(); }
    void prop(char const* n) override { prop_ = n; }
    void region(ast::node_region& r, bool own) override { if (!own) list.push_back({ r, std::string { "." } + prop_, stack_.empty() ? -1 : stack_.back(), {}, false }); }
    void boolean(bool&) override {}
    void integer(long long, std::function<void(long long)> const&) override {}
    void string(std::string& v) override { if (!stack_.empty()) list[static_cast<std::size_t>(stack_.back())].text = v; if (v.capacity() > 15) addrs.push_back(v.data()); }
    void enumeration(char const*, std::size_t, std::size_t, long long, std::function<void(std::size_t)> const&) override {}
    void null() override {}
    void sequence_begin(std::size_t, edit_fn const&) override {}
    void sequence_end() override {}
    void optional(bool, edit_fn const&) override {}
private:
    std::vector<int> stack_ {};
    std::vector<bool> node_ {};
    std::string prop_ {};
};

ast::node& mut(ast::node const& n) { return const_cast<ast::node&>(n); }

} // namespace

std::string token_map::name(ast::node_region r) const {
    if (!r) return "@?";
    auto pos = [&](std::size_t p, bool begin) -> std::string {
        auto b = std::lower_bound(tokens.begin(), tokens.end(), p, [](auto const& t, std::size_t x) { return t.first < x; });
        bool is_b = b != tokens.end() && b->first == p;
        auto e = std::lower_bound(tokens.begin(), tokens.end(), p, [](auto const& t, std::size_t x) { return t.second < x; });
        bool is_e = e != tokens.end() && e->second == p;
        if (is_b && (begin || !is_e)) return "b" + std::to_string(b - tokens.begin());
        if (is_e) return "e" + std::to_string(e - tokens.begin());
        if (p == size) return "eof";
        if (p == 0) return "bof";
        auto c = std::upper_bound(tokens.begin(), tokens.end(), p, [](std::size_t x, auto const& t) { return x < t.first; });
        if (c != tokens.begin() && p < std::prev(c)->second) return "t" + std::to_string(std::prev(c) - tokens.begin()) + "+" + std::to_string(p - std::prev(c)->first);
        return "raw" + std::to_string(p);
    };
    bool empty = r.begin == r.end;
    return "@" + pos(r.begin, !empty) + "-" + pos(r.end, false);
}

std::string dump(ast::node const& n, regions mode, token_map const* map) {
    dumper d { mode, map };
    walk_node(d, mut(n));
    return std::move(d.out);
}

std::string dump(ast::compilation_unit const& u, regions mode, token_map const* map) {
    dumper d { mode, map };
    for (auto&& s : u.statements()) { if (s) walk_node(d, *s); else d.out += "null"; d.out += '\n'; }
    if (mode != regions::none) { d.out += "comments"; for (auto r : u.comments()) { d.out += ' '; d.region(r, false); } }
    return std::move(d.out);
}

std::vector<region_entry> collect_regions(ast::compilation_unit const& u) {
    collector c {};
    for (auto&& s : u.statements()) if (s) walk_node(c, *s);
    return std::move(c.list);
}
std::size_t count_nodes(ast::node const& n) { collector c {}; walk_node(c, mut(n)); return c.nodes; }
std::pair<std::size_t, std::size_t> count_nodes(ast::compilation_unit const& u) {
    collector c {};
    for (auto&& s : u.statements()) if (s) walk_node(c, *s);
    return { c.nodes, c.depth };
}
std::vector<void const*> addresses(ast::node const& n) { collector c {}; walk_node(c, mut(n)); return std::move(c.addrs); }
std::size_t count_leaves(ast::node const& n) { mutator m { static_cast<std::size_t>(-1), 0 }; walk_node(m, mut(n)); return m.leaves; }
std::string mutate(ast::node& n, std::size_t k, u64 salt) {
    mutator m { k, salt };
    walk_node(m, n);
    if (m.after) {
        auto p = m.after();
        if (!p.empty()) fail("value-semantics", p);
    }
    if (m.target) {
        // replaced by a copy of another child of the same type
        child_finder f {};
        walk_node(f, n);
        std::vector<void*> donors {};
        for (auto&& [p, o] : f.list) if (o == m.ops && p != m.target) donors.push_back(p);
        if (!donors.empty()) {
            auto* d = donors[salt % donors.size()];
            auto expected = dump(m.ops->node(d), regions::absolute);
            { rt::armed a {}; m.ops->replace(m.target, d); }
            auto got = dump(m.ops->node(m.target), regions::absolute);
            if (got != expected) fail("value-semantics", "the copy of a subtree differs from the subtree\n  expected " + expected.substr(0, 1500) + "\n  actual   " + got.substr(0, 1500));
        }
    }
    return std::move(m.done);
}
std::vector<std::pair<void*, build_ops const*>> buildable(ast::node& n) { object_finder f {}; walk_node(f, n); return std::move(f.list); }
std::vector<std::pair<void*, child_ops const*>> children(ast::node& n) { child_finder f {}; walk_node(f, n); return std::move(f.list); }
bool mutate_region(ast::node& n, std::size_t k) { region_mutator m { k }; walk_node(m, n); return k < m.count; }

// ---------------------------------------------------------------- serializer

bool recorder::fire() {
    ++events;
    if (hook) hook();
    if (failed) problem = "an event was emitted after the receiver had failed";
    return events > fail_at && !failed;
}
void recorder::fill() { if (!filled_.empty()) ++filled_.back(); }
void recorder::value(std::string const& t) {
    rt::disarmed d {};
    if (fire()) { failed = true; throw injected_error("acceptor"); }
    if (open.empty() ? !text.empty() : (open.back() == '{' || (open.back() == ':' && filled_.back() > 0))) problem = "a value appeared where none is allowed";
    fill();
    text += t; text += ' ';
}
void recorder::begin(char c) {
    rt::disarmed d {};
    if (fire()) { failed = true; throw injected_error("acceptor"); }
    if (open.empty() ? !text.empty() : (open.back() == '{' || (open.back() == ':' && filled_.back() > 0))) problem = "a structure appeared where none is allowed";
    fill();
    open.push_back(c); filled_.push_back(0);
    text += c;
}
void recorder::end(char o, char c) {
    rt::disarmed d {};
    if (open.empty() || open.back() != o) { problem = "a structure was closed which is not open"; return; }
    open.pop_back(); filled_.pop_back();
    if (!failed) { text += c; text += ' '; }
}
void recorder::property_begin(std::string_view name) {
    rt::disarmed d {};
    if (fire()) { failed = true; throw injected_error("acceptor"); }
    if (open.empty() || open.back() != '{') problem = "a property appeared outside of a structure";
    fill();
    open.push_back(':'); filled_.push_back(0);
    text += name; text += ':';
}
void recorder::property_end() {
    rt::disarmed d {};
    if (open.empty() || open.back() != ':') { problem = "a property was closed which is not open"; return; }
    open.pop_back(); filled_.pop_back();
}

std::string serialize(ast::node const& n) { recorder r {}; r << n; return r.text; }
std::string serialize(ast::compilation_unit const& n) { recorder r {}; r << n; return r.text; }

// ---------------------------------------------------------------- parse results

std::string canon(::mizugaki::parser::sql_parser_result const& r, regions mode, token_map const* map, bool message) {
    std::string out {};
    if (r.has_value()) {
        out = "ok nodes=" + std::to_string(r.tree_node_count()) + " depth=" + std::to_string(r.max_tree_depth()) + "\n";
        out += dump(*r.value(), mode, map);
    }
    if (!r.has_value() || r.has_diagnostic()) {
        auto&& d = r.diagnostic();
        out += "error ";
        out += to_string_view(d.code());
        auto reg = ast::node_region { d.region() };
        if (mode == regions::absolute) out += " @" + std::to_string(reg.begin) + "-" + std::to_string(reg.end);
        else if (mode == regions::tokens) out += " " + map->name(reg);
        if (message) out += " " + d.message();
        out += "\n";
    }
    return out;
}

} // namespace sim
