// The sample catalog, behind providers where lookups may fail, change their mind, be slow or come back.
#include "analyze.h"

#include <takatori/type/all.h>
#include <takatori/value/all.h>

#include <algorithm>
#include <sstream>

namespace sim {

namespace yst = ::yugawara::storage;
namespace yv = ::yugawara::variable;
namespace yf = ::yugawara::function;
namespace ya = ::yugawara::aggregate;
namespace ysc = ::yugawara::schema;
namespace tt = ::takatori::type;
namespace tv = ::takatori::value;

lookup_plan& lookups() { static thread_local lookup_plan p {}; return p; }

namespace {


/// decides about one lookup; disarmed
lookup_action touch(char const* kind, std::string_view name) {
    auto& p = lookups();
    auto at = static_cast<long>(p.seen++);
    rt::count(c_lookups);
    p.last_at = rt::now();
    if (p.first_at == 0) p.first_at = p.last_at;
    if (p.keep_log) { p.log += kind; p.log += ' '; p.log += name; p.log += '\n'; }
    long ordinal = -1;
    if (!p.entries.empty()) {
        std::string key { std::string_view { kind } == "table" ? "relation" : kind };
        key += ' ';
        key += name;
        auto k = std::find(p.keys.begin(), p.keys.end(), key);
        ordinal = k - p.keys.begin();
        if (k == p.keys.end()) p.keys.push_back(std::move(key));
    }
    for (std::size_t i = 0; i < p.entries.size(); ++i) {
        auto& e = p.entries[i];
        bool answer = e.action >= lookup_action::answer_nothing && e.action <= lookup_action::answer_old;
        auto x = answer ? ordinal : at;
        if (x < e.at || x >= e.at + e.len) continue;
        ++p.fired;
        switch (e.action) {
            case lookup_action::throw_injected: rt::count(c_fault_catalog); throw injected_error { "catalog " + std::to_string(at) };
            case lookup_action::throw_bad_alloc: rt::count(c_fault_catalog); throw std::bad_alloc {};
            case lookup_action::throw_runtime: rt::count(c_fault_catalog); throw std::invalid_argument { "catalog " + std::to_string(at) };
            case lookup_action::throw_odd: rt::count(c_fault_catalog); throw odd_error { at };
            case lookup_action::call: { auto f = e.call; f(); break; }
            case lookup_action::none: break;
            default: rt::count(c_fault_catalog_answer); return e.action;
        }
    }
    return lookup_action::none;
}

class view final : public yst::relation {
public:
    view(std::string name, ::takatori::util::reference_vector<yst::column> c) : name_ { std::move(name) }, columns_ { std::move(c) } { for (auto&& x : columns_) x.owner_internal(this); }
    [[nodiscard]] yst::relation_kind kind() const noexcept override { return yst::relation_kind::view; }
    [[nodiscard]] std::string_view simple_name() const noexcept override { return name_; }
    [[nodiscard]] ::takatori::util::reference_vector<yst::column> const& columns() const noexcept override { return columns_; }
protected:
    [[nodiscard]] bool equals(relation const& o) const noexcept override { return std::addressof(o) == this; }
    std::ostream& print_to(std::ostream& o) const override { return o << "view(" << name_ << ")"; }
private:
    std::string name_;
    ::takatori::util::reference_vector<yst::column> columns_;
};

template<class T> std::shared_ptr<tt::data const> ty(T t) { return std::make_shared<T const>(std::move(t)); }

} // namespace

namespace {

using content = world::content;

class storage_provider final : public yst::provider {
public:
    storage_provider(std::shared_ptr<content> c, std::size_t i) : c_ { std::move(c) }, i_ { i } {}
    void each_relation(relation_consumer_type const& consumer) const override { all(consumer, s().relations, "each_relation"); }
    [[nodiscard]] std::shared_ptr<yst::relation const> find_relation(std::string_view id) const override {
        rt::disarmed d {};
        auto a = touch("relation", id);
        if (a == lookup_action::answer_nothing) return {};
        if (a == lookup_action::answer_other) return s().other_relation;
        return relation(id);
    }
    [[nodiscard]] std::shared_ptr<yst::table const> find_table(std::string_view id) const override {
        rt::disarmed d {};
        auto a = touch("table", id);
        if (a == lookup_action::answer_nothing) return {};
        auto r = a == lookup_action::answer_other ? s().other_relation : relation(id);
        if (r && r->kind() == yst::relation_kind::table) return std::static_pointer_cast<yst::table const>(r);
        return {};
    }
    void each_index(index_consumer_type const& consumer) const override { all(consumer, s().indices, "each_index"); }
    void each_table_index(yst::table const& t, index_consumer_type const& consumer) const override {
        std::vector<std::pair<std::string, std::shared_ptr<yst::index const>>> l {};
        lookup_action a {};
        {
            rt::disarmed d {};
            a = touch("table_index", t.simple_name());
            for (auto&& [k, v] : s().indices) if (std::addressof(v->table()) == std::addressof(t)) l.emplace_back(k, v);
            if (a == lookup_action::answer_nothing) l.clear();
            if (a == lookup_action::answer_other && !l.empty()) l.pop_back();
        }
        for (auto&& [k, v] : l) consumer(k, v);
        rt::disarmed d {};
        l = {};
    }
    [[nodiscard]] std::shared_ptr<yst::index const> find_index(std::string_view id) const override {
        rt::disarmed d {};
        auto a = touch("index", id);
        if (a == lookup_action::answer_nothing) return {};
        if (a == lookup_action::answer_other) return s().other_index;
        auto i = s().indices.find(id);
        if (i == s().indices.end()) return {};
        return i->second;
    }
    [[nodiscard]] std::shared_ptr<yst::index const> find_primary_index(yst::table const& t) const override {
        rt::disarmed d {};
        auto a = touch("primary_index", t.simple_name());
        if (a == lookup_action::answer_nothing) return {};
        if (a == lookup_action::answer_other) for (auto&& [k, v] : s().indices) if (std::addressof(v->table()) == std::addressof(t) && !v->features().contains(yst::index_feature::primary)) return v;
        for (auto&& [k, v] : s().indices) if (std::addressof(v->table()) == std::addressof(t) && v->features().contains(yst::index_feature::primary)) return v;
        return {};
    }
    [[nodiscard]] std::shared_ptr<yst::sequence const> find_sequence(std::string_view id) const override {
        rt::disarmed d {};
        auto a = touch("sequence", id);
        if (a == lookup_action::answer_nothing) return {};
        auto i = s().sequences.find(id);
        if (i == s().sequences.end()) return {};
        return i->second;
    }
private:
    std::shared_ptr<content> c_;
    std::size_t i_;
    [[nodiscard]] content::storage_state& s() const { return c_->now->storage[i_]; }
    [[nodiscard]] std::shared_ptr<yst::relation> relation(std::string_view id) const {
        auto i = s().relations.find(id);
        if (i == s().relations.end()) return {};
        return i->second;
    }
    template<class C, class M> void all(C const& consumer, M const& m, char const* what) const {
        M copy {};
        {
            rt::disarmed d {};
            if (touch(what, "") != lookup_action::answer_nothing) copy = m;
        }
        for (auto&& [k, v] : copy) consumer(k, v);
        rt::disarmed d {};
        copy.clear();
    }
};

template<bool Host>
class variable_provider final : public yv::provider {
public:
    explicit variable_provider(std::shared_ptr<content> c) : c_ { std::move(c) } {}
    void each(consumer_type const& consumer) const override {
        std::vector<std::shared_ptr<yv::declaration const>> l {};
        {
            rt::disarmed d {};
            if (touch("variables", "") != lookup_action::answer_nothing) for (auto&& [k, v] : m()) l.push_back(v);
        }
        for (auto&& v : l) consumer(v);
        rt::disarmed d {};
        l = {};
    }
    [[nodiscard]] std::shared_ptr<yv::declaration const> find(std::string_view name) const override {
        rt::disarmed d {};
        auto a = touch(Host ? "parameter" : "variable", name);
        if (a == lookup_action::answer_nothing) return {};
        if (a == lookup_action::answer_other && !m().empty()) return m().begin()->second;
        auto i = m().find(name);
        if (i == m().end()) return {};
        return i->second;
    }
private:
    std::shared_ptr<content> c_;
    [[nodiscard]] auto& m() const { return Host ? c_->now->parameters : c_->now->variables; }
};

template<class P, class D>
class callable_provider final : public P {
public:
    using list = std::vector<std::shared_ptr<D const>>;
    callable_provider(std::shared_ptr<content> c, std::size_t i) : c_ { std::move(c) }, i_ { i } {}
    void each(typename P::consumer_type const& consumer) const override { run("functions", "", consumer, [](D const&) { return true; }); }
    void each(std::string_view name, std::size_t n, typename P::consumer_type const& consumer) const override {
        run(std::is_same_v<D, yf::declaration> ? "function" : "aggregate", name, consumer, [&](D const& d) { return d.name() == name && d.shared_parameter_types().size() == n; });
    }
private:
    std::shared_ptr<content> c_;
    std::size_t i_;
    [[nodiscard]] list const& all() const {
        if constexpr (std::is_same_v<D, yf::declaration>) return c_->now->functions[i_]; else return c_->now->aggregates;
    }
    template<class F> void run(char const* what, std::string_view name, typename P::consumer_type const& consumer, F filter) const {
        list l {};
        {
            rt::disarmed d {};
            auto a = touch(what, name);
            for (auto&& x : all()) if (filter(*x)) l.push_back(x);
            if (a == lookup_action::answer_nothing) l.clear();
            if (a == lookup_action::answer_other && !l.empty()) { if (l.size() > 1) l.pop_back(); else l.push_back(l[0]); }
        }
        for (auto&& x : l) consumer(x);
        rt::disarmed d {};
        l = {};
    }
};

class schema_provider final : public ysc::provider {
public:
    std::vector<std::weak_ptr<ysc::declaration const>> elements {};
    void each(consumer_type const& consumer) const override {
        std::vector<std::shared_ptr<ysc::declaration const>> l {};
        {
            rt::disarmed d {};
            if (touch("schemas", "") != lookup_action::answer_nothing) for (auto&& e : elements) if (auto p = e.lock()) l.push_back(p);
        }
        for (auto&& x : l) consumer(x);
        rt::disarmed d {};
        l = {};
    }
    [[nodiscard]] std::shared_ptr<ysc::declaration const> find(std::string_view name) const override {
        rt::disarmed d {};
        auto a = touch("schema", name);
        if (a == lookup_action::answer_nothing) return {};
        for (auto&& e : elements) if (auto p = e.lock()) if (a == lookup_action::answer_other || p->name() == name) return p;
        return {};
    }
};

} // namespace

void world::content::fill(int kind, yst::provider const* const* owners) {
    bool other = kind == 1;
    auto next = std::make_unique<state>();
    auto& n = *next;
    auto not_null = yv::criteria { ~yv::nullable };
    auto add_table = [&](std::size_t schema, std::string name, std::vector<yst::column> columns, int primary, std::vector<std::pair<std::string, std::vector<std::size_t>>> secondary = {}) {
        ::takatori::util::reference_vector<yst::column> c {};
        for (auto&& x : columns) c.push_back(x);
        auto t = std::make_shared<yst::table>(std::nullopt, name, std::move(c));
        t->owner_internal(owners[schema]);
        auto& s = n.storage[schema];
        if (primary > 0) {
            std::vector<yst::index::key> keys {};
            std::vector<yst::index::column_ref> values {};
            for (int i = 0; i < static_cast<int>(t->columns().size()); ++i) { auto&& x = t->columns()[static_cast<std::size_t>(i)]; if (i < primary) keys.emplace_back(x); else values.emplace_back(x); }
            s.indices[name] = std::make_shared<yst::index const>(std::nullopt, t, name, keys, values,
                yst::index_feature_set { yst::index_feature::find, yst::index_feature::scan, yst::index_feature::primary, yst::index_feature::unique, yst::index_feature::unique_constraint });
        }
        for (auto&& [in, cols] : secondary) {
            std::vector<yst::index::key> keys {};
            for (auto i : cols) keys.emplace_back(t->columns()[i], keys.empty() ? ::takatori::relation::sort_direction::ascendant : ::takatori::relation::sort_direction::descendant);
            s.indices[in] = std::make_shared<yst::index const>(std::nullopt, t, in, keys, std::vector<yst::index::column_ref> {}, yst::index_feature_set { yst::index_feature::find, yst::index_feature::scan });
        }
        s.relations[name] = t;
        return t;
    };
    auto vc = [] { return tt::character { tt::varying }; };
    if (kind != 2) {
        auto seq = std::make_shared<yst::sequence const>(std::size_t { 7 }, "t3_seq", 1, 1, 1, 1000000, false);
        n.storage[0].sequences["t3_seq"] = seq;
        std::vector<yst::column> t0 { { "k", tt::int4 {}, not_null }, { "c0", tt::int4 {} }, { "c1", tt::int8 {} }, { "c2", vc() }, { "c3", tt::decimal { 10, 2 } } };
        if (other) { while (t0.size() > 1) t0.pop_back(); t0.emplace_back("c1", tt::character { tt::varying, 3 }); t0.emplace_back("extra", tt::float8 {}); }
        add_table(0, "t0", t0, 1, { { "t0_c1", { 1 } }, { "t0_c12", { 1, 2 } } });
        add_table(0, "t1", { { "k", tt::int8 {}, not_null }, { "f", tt::float8 {} }, { "v", tt::character { 10 } }, { "d", tt::date {} }, { "ts", tt::time_point {} }, { "tz", tt::time_point { tt::with_time_zone } }, { "t", tt::time_of_day {} } }, other ? 2 : 1);
        add_table(0, "t2", { { "a", tt::int4 {} }, { "b", vc() }, { "c", tt::boolean {} } }, other ? 1 : 0);
        add_table(0, "t3", {
            { "id", tt::int8 {}, not_null, yst::column_value { std::shared_ptr<yst::sequence const> { seq } } },
            { "name", tt::character { tt::varying, 20 }, not_null },
            { "def", tt::int4 {}, {}, yst::column_value { tv::int4 { 42 } } },
            { "rid", tt::int8 {}, not_null, yst::column_value { tv::int8 { 0 } }, { yst::column_feature::synthesized, yst::column_feature::hidden, yst::column_feature::read_only } },
            { "x", tt::octet { tt::varying } }, { "bl", tt::blob {} }, { "cl", tt::clob {} }, { "b", tt::boolean {} } }, 2, { { "t3_name", { 1 } } });
        add_table(1, "t0", { { "k", tt::int4 {}, not_null }, { "shadowed", tt::float4 {} } }, 1);
        add_table(1, "s0", { { "k", tt::int4 {}, not_null }, { "x", tt::float4 {} }, { "c1", tt::int8 {} } }, 1, { { "s0_x", { 1 } } });
        add_table(2, "u0", { { "k", tt::int4 {}, not_null }, { "w", vc() } }, 1);
        if (!other) add_table(2, "U1", { { "K", tt::int4 {}, not_null }, { "w", vc() } }, 1);
        ::takatori::util::reference_vector<yst::column> vcols {};
        vcols.push_back(yst::column { "k", tt::int4 {} });
        auto v = std::make_shared<view>("v0", std::move(vcols));
        v->owner_internal(owners[0]);
        n.storage[0].relations["v0"] = v;
        for (std::size_t i = 0; i < 3; ++i) { n.storage[i].other_relation = n.storage[i].relations.begin()->second; n.storage[i].other_index = n.storage[i].indices.rbegin()->second; }

        n.variables["gv"] = std::make_shared<yv::declaration const>(std::nullopt, "gv", other ? ty(tt::int8 {}) : ty(tt::int4 {}));
        n.variables["gvs"] = std::make_shared<yv::declaration const>(std::nullopt, "gvs", ty(vc()));
        auto i4 = ty(tt::int4 {}); auto i8 = ty(tt::int8 {}); auto dec = ty(tt::decimal {}); auto str = ty(vc()); auto f8 = ty(tt::float8 {}); auto bo = ty(tt::boolean {}); auto d = ty(tt::date {}); auto tp = ty(tt::time_point {}); auto oct = ty(tt::octet { tt::varying });
        std::size_t id = 20000;
        auto fun = [&](std::size_t s, char const* name, std::shared_ptr<tt::data const> r, std::vector<std::shared_ptr<tt::data const>> p, yf::function_feature_set f = { yf::function_feature::scalar_function }) { n.functions[s].push_back(std::make_shared<yf::declaration const>(id++, std::string { name }, std::move(r), std::move(p), f)); };
        fun(0, "abs", i4, { i4 }); fun(0, "abs", i8, { i8 }); fun(0, "abs", dec, { dec }); fun(0, "abs", f8, { f8 });
        fun(0, "concat", str, { str, str }); fun(0, "upper", str, { str }); fun(0, "now", tp, {}); fun(0, "mix", i8, { i4, i8 }); fun(0, "mix", f8, { f8, f8 });
        fun(0, "amb", i8, { i4, i8 }); fun(0, "amb", i8, { i8, i4 });
        fun(0, "pairs", i4, { i4, i8 }); fun(0, "pairs", i8, { i8, i4 }); fun(0, "pairs", i4, { i4, i4 }); fun(0, "pairs", f8, { f8, i4 }); fun(0, "pairs", f8, { f8, f8 });
        fun(0, "is_ok", bo, { str }); fun(0, "is_ok", bo, { i8 }); fun(0, "days", i4, { d }); fun(0, "hex", str, { oct });
        fun(0, "nextval", i8, { i8 });
        fun(0, "series", ty(tt::table { { "n", tt::int4 {} } }), { i4, i4 }, { yf::function_feature::table_valued_function });
        fun(0, "split", ty(tt::table { { "pos", tt::int8 {} }, { "word", tt::character { tt::varying } }, { "len", tt::int4 {} } }), { str }, { yf::function_feature::table_valued_function });
        if (other) n.functions[0].erase(n.functions[0].begin(), n.functions[0].begin() + 3);
        fun(1, "only2", i4, { i4 }); fun(1, "upper", str, { i8 });
        auto agg = [&](char const* name, std::shared_ptr<tt::data const> r, std::vector<std::shared_ptr<tt::data const>> p) { n.aggregates.push_back(std::make_shared<ya::declaration const>(id++, std::string { name }, std::move(r), std::move(p), true)); };
        agg("count", i8, {}); agg("count", i8, { i8 }); agg("count", i8, { str }); agg("count", i8, { f8 }); agg("count$distinct", i8, { i8 }); agg("count$distinct", i8, { str });
        agg("sum", i8, { i8 }); agg("sum", f8, { f8 }); agg("sum", dec, { dec }); agg("sum$distinct", i8, { i8 }); agg("avg", f8, { f8 }); agg("max", i4, { i4 }); agg("max", i8, { i8 }); agg("max", str, { str }); agg("max", dec, { dec }); agg("min", i8, { i8 }); agg("min", str, { str });
        agg("corr", f8, { f8, f8 });
        agg("pair_sum", i8, { i8, f8 }); agg("pair_sum", f8, { f8, i8 }); agg("pair_sum", i8, { i8, i8 });
        auto par = [&](char const* name, std::shared_ptr<tt::data const> t) { n.parameters[name] = std::make_shared<yv::declaration const>(std::nullopt, name, std::move(t)); };
        par("p_int", ty(tt::int4 {})); par("p_big", ty(tt::int8 {})); par("p_str", ty(vc())); par("p_dec", ty(tt::decimal { 10, 2 })); par("p_date", ty(tt::date {})); par("p_f", ty(tt::float8 {})); par("p_bool", ty(tt::boolean {}));
        par(":p_int", ty(tt::int4 {})); par(":p_str", ty(vc())); par(":p_f", ty(tt::float8 {}));
    }
    std::swap(now, next);   // the old objects go here
}

void world::arrange(u64 seed) {
    auto f = [seed](auto& l) {
        std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return a->definition_id() < b->definition_id(); });
        rt::prng r { seed };
        if (seed != 0) for (auto i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r.below(i)]);
    };
    for (auto& l : content_->now->functions) f(l);
    f(content_->now->aggregates);
}

world::world(bool sample) : content_ { std::make_shared<content>() } {
    auto schemas = std::make_shared<schema_provider>();
    catalog = std::make_shared<ysc::catalog>("tsurugi", std::nullopt, schemas);
    std::shared_ptr<storage_provider> st[3] {};
    yst::provider const* owners[3] {};
    for (std::size_t i = 0; i < 3; ++i) { st[i] = std::make_shared<storage_provider>(content_, i); owners[i] = st[i].get(); }
    auto vars = std::make_shared<variable_provider<false>>(content_);
    auto aggs = std::make_shared<callable_provider<ya::provider, ya::declaration>>(content_, 0);
    first = std::make_shared<ysc::declaration>("pub", std::size_t { 1 }, st[0], vars, std::make_shared<callable_provider<yf::provider, yf::declaration>>(content_, 0), aggs);
    second = std::make_shared<ysc::declaration>("sch2", std::size_t { 2 }, st[1], std::shared_ptr<yv::provider> {}, std::make_shared<callable_provider<yf::provider, yf::declaration>>(content_, 1));
    third = std::make_shared<ysc::declaration>("third", std::size_t { 3 }, st[2]);
    schemas->elements = { first, second, third };
    parameters = std::make_shared<variable_provider<true>>(content_);
    if (!sample) { install(std::make_unique<content::state>()); return; }
    content_->fill(0, owners);
    placeholders.add("h_int", { tt::int4 {}, tv::int4 { 7 } });
    placeholders.add("h_big", { tt::int8 {}, tv::int8 { 8 } });
    placeholders.add("h_str", { tt::character { tt::varying }, tv::character { "host" } });
    placeholders.add("p_int", { tt::int4 {}, tv::int4 { -1 } });
    placeholders.add("h_null", { tt::int4 {}, tv::unknown {} });
}
world::~world() = default;

void world::install(std::unique_ptr<content::state> next) { std::swap(content_->now, next); }
yst::provider const& world::provider(std::size_t i) const { return i == 0 ? first->storage_provider() : i == 1 ? second->storage_provider() : third->storage_provider(); }

void world::ddl(int kind) {
    rt::count(c_fault_churn);
    yst::provider const* owners[3] { std::addressof(first->storage_provider()), std::addressof(second->storage_provider()), std::addressof(third->storage_provider()) };
    for (auto&& s : content_->now->storage) for (auto&& [k, r] : s.relations) if (kind == 2) r->owner_internal(nullptr);
    complete_.reset();
    content_->fill(kind, owners);
}
void world::drop_relation(std::string const& name) {
    rt::count(c_fault_churn);
    auto& s = content_->now->storage[0];
    auto i = s.relations.find(name);
    if (i == s.relations.end()) return;
    auto* t = i->second.get();
    for (auto x = s.indices.begin(); x != s.indices.end();) if (std::addressof(x->second->table()) == t) { if (s.other_index == x->second) s.other_index = {}; x = s.indices.erase(x); } else ++x;
    t->owner_internal(nullptr);
    if (s.other_relation == i->second) s.other_relation = {};
    s.relations.erase(i);
}

void world::become(long state, bool in_place) {
    static char const* const names[] { "t0", "t1", "t2", "t3", "v0" };
    if (!in_place) {
        ddl(static_cast<int>(state & 3));
        for (std::size_t i = 0; i < 5; ++i) if ((state >> 2 >> i) & 1) drop_relation(names[i]);
        complete_.reset();
        if (state >> 7 == 0) return;
    }
    rt::count(c_fault_churn);
    // single objects are replaced while all others remain
    auto& n = *content_->now;
    if (!complete_) complete_ = std::make_unique<content_state>(n);
    auto const& c = *complete_;
    for (std::size_t i = 0; i < 2; ++i) {
        auto& st = n.storage[0];
        auto table = st.relations.find(names[i]);
        if (table == st.relations.end()) continue;
        auto kind = (state >> (7 + 2 * i)) & 3;
        for (auto&& [name, index] : c.storage[0].indices) {
            if (std::addressof(index->table()) != table->second.get()) continue;
            st.indices.erase(name);
            if (kind == 2) continue;
            bool primary = index->features().contains(yst::index_feature::primary);
            if (kind == 0 || (kind == 1 && !primary)) { st.indices[name] = index; continue; }
            auto owner = std::dynamic_pointer_cast<yst::table>(table->second);
            if (!owner) continue;
            std::vector<yst::index::key> keys {};
            std::vector<yst::index::column_ref> values {};
            // 1: another key, 3: an equal index
            if (kind == 1) { auto m = owner->columns().size(); keys.emplace_back(owner->columns()[m > 1 ? 1 : 0], ::takatori::relation::sort_direction::descendant); for (std::size_t k = 0; k < m; ++k) if (k != (m > 1 ? 1 : 0)) values.emplace_back(owner->columns()[k]); }
            else { for (auto&& k : index->keys()) keys.emplace_back(k.column(), k.direction()); for (auto&& v : index->values()) values.push_back(v); }
            st.indices[name] = std::make_shared<yst::index const>(std::nullopt, owner, name, keys, values, index->features());
        }
    }
    // functions, aggregates and variables
    auto thin = [&](auto& to, auto const& from, bool on) { to.clear(); for (std::size_t k = 0; k < from.size(); ++k) if (!on || k % 2 == 1) to.push_back(from[k]); };
    for (std::size_t i = 0; i < 2; ++i) thin(n.functions[i], c.functions[i], ((state >> 11) & 1) != 0);
    thin(n.aggregates, c.aggregates, ((state >> 11) & 1) != 0);
    n.variables = c.variables;
    n.storage[0].sequences = c.storage[0].sequences;
    if ((state >> 12) & 1) { n.variables.erase("gv"); n.storage[0].sequences.clear(); }
}

std::string world::describe() const {
    std::ostringstream o {};
    o << catalog->name() << "\n";
    for (std::size_t i = 0; i < 3; ++i) {
        auto& s = content_->now->storage[i];
        for (auto&& [k, v] : s.relations) o << "relation " << k << ": " << *v << v->columns() << "@" << v.get() << "\n";
        for (auto&& [k, v] : s.indices) { o << "index " << k << ": " << *v << " values"; for (auto&& c : v->values()) o << " " << c.get().simple_name(); o << "@" << v.get() << "\n"; }
        for (auto&& [k, v] : s.sequences) o << "sequence " << k << ": " << *v << "\n";
    }
    for (auto&& [k, v] : content_->now->variables) o << "variable " << k << ": " << *v << v->criteria() << "@" << v.get() << "\n";
    for (auto&& l : content_->now->functions) for (auto&& f : l) { o << *f << " " << f->return_type() << "("; for (auto&& p : f->shared_parameter_types()) o << *p << ","; o << ")" << f->features() << "@" << f.get() << "\n"; }
    for (auto&& f : content_->now->aggregates) { o << *f << " " << f->return_type() << "("; for (auto&& p : f->shared_parameter_types()) o << *p << ","; o << ")@" << f.get() << "\n"; }
    o << describe_parameters();
    return o.str();
}
std::string world::describe_parameters() const {
    std::ostringstream o {};
    for (auto&& [k, v] : content_->now->parameters) o << "parameter " << k << ": " << *v << "@" << v.get() << "\n";
    for (auto* n : { "h_int", "h_big", "h_str", "p_int", "h_null" }) { auto e = placeholders.find(n); o << "placeholder " << n << ": "; if (e) o << *e; o << "\n"; }
    return o.str();
}

} // namespace sim
