#include "session.h"
#include <cstdlib>
#include <iostream>

#include <mizugaki/parser/sql_parser.h>

#include <sstream>

namespace sim::sql {

std::vector<long> statement_options(rt::prng& r) {
    long f = r.chance(7, 8) ? af_lower : 0;
    static long const some[] { af_null, af_write, af_small_integer, af_small_character, af_small_decimal, af_small_binary, af_cycle };
    for (auto b : some) if (r.chance(1, 4)) f |= b;
    f |= af_validate;
    if (r.chance(7, 8)) f |= af_cast;
    return { f, 38, r.chance(1, 6) ? (r.chance(1, 2) ? 1 : 3) : 0, 0, 1, 0, 0, 0, 0, r.range(1, 3) };
}
void random_faults(rt::prng& r, scenario& s, int op) {
    if (!r.chance(1, 4)) return;
    if (r.chance(1, 2)) s.faults.push_back({ 0, op, "alloc", static_cast<long>(r.below(1UL << r.range(1, 12))), r.chance(1, 4) ? 1000000 : 1, 0 });
    else s.faults.push_back({ 0, op, "catalog", static_cast<long>(r.below(1UL << r.range(1, 5))), r.chance(1, 3) ? 1000 : 1, r.range(1, 3) });
}
std::string errors(analyzer::sql_analyzer_result const& r) {
    if (r.kind() != analyzer::sql_analyzer_result_kind::diagnostics) return {};
    std::ostringstream s {};
    for (auto&& d : r.element<analyzer::sql_analyzer_result_kind::diagnostics>()) s << "\n  " << d.code() << ": " << d.message();
    return s.str();
}

void session::schema(std::string const& cs, bool changes) {
    choices c { cs };
    for (auto& t : db.tables) t.clear();
    static char const* const names[] { "t0", "t1", "t2", "Orders", "t0", "items" };
    static char const* const columns[] { "a", "b", "c", "k", "v", "d", "order_no", "Mix", "e", "f", "g" };
    static tclass const classes[] { tclass::i8, tclass::str, tclass::i4, tclass::dec, tclass::f8, tclass::da, tclass::bo, tclass::tp, tclass::ti, tclass::oct, tclass::tz };
    auto n = 1 + c.pick(4);
    for (std::size_t i = 0; i < n; ++i) {
        stored_table t {};
        t.def.name = names[c.pick(6)];
        auto schema = c.pick(6);
        schema = schema < 4 ? 0 : schema == 4 ? 1 : 2;
        if (db.tables[schema].count(t.def.name) != 0) continue;
        bool hidden = c.one_in(6);
        auto m = 1 + c.pick(5);
        auto start = c.pick(8);
        for (std::size_t k = 0; k < m; ++k) {
            column_def d {};
            d.name = columns[(start + k * (i % 2 == 0 ? 1 : 3)) % 11];
            bool twice = false;
            for (auto&& x : t.def.columns) if (x.name == d.name) twice = true;
            if (twice) continue;
            auto k2 = classes[c.pick(c.one_in(3) ? 11 : 7)];
            d.type = type_of(k2);
            if (k2 == tclass::dec) { d.type.precision = 10; d.type.scale = 2; }
            if (k2 == tclass::str && c.one_in(3)) d.type.precision = 20;
            if (changes) {
                d.not_null = c.one_in(4);
                if (c.one_in(4)) { d.d = dflt::constant; d.constant = random_value(c, k2, false); if (k2 == tclass::i4 && d.constant.i > 1000) d.constant.i = 9; }
                else if (k2 == tclass::i4 && c.one_in(4)) { d.d = dflt::function; d.function = "four"; }
                else if (k2 == tclass::str && c.one_in(6)) { d.d = dflt::function; d.function = "hello"; }
                else if (k2 == tclass::i8 && c.one_in(6)) { d.d = dflt::sequence; d.seq.initial = 10; d.seq.increment = static_cast<long>(1 + c.pick(3)); d.read_only = c.one_in(3); }
            }
            t.def.columns.push_back(std::move(d));
        }
        if (hidden) {
            column_def d {};
            d.synthesized = !c.one_in(3);
            d.name = d.synthesized ? "__rowid" : "hid";
            d.type = type_of(tclass::i8);
            d.not_null = true;
            d.hidden = true;
            d.d = dflt::sequence;
            auto at = c.pick(t.def.columns.size() + 1);
            t.def.columns.insert(t.def.columns.begin() + static_cast<std::ptrdiff_t>(at), d);
            t.def.primary = { { at, false } };
        } else {
            // a single column is its key, otherwise one or two of them
            t.def.primary.push_back({ 0, c.one_in(3) });
            if (t.def.columns.size() > 1 && c.pick(2) == 1) t.def.primary.push_back({ 1, c.one_in(3) });
            for (auto&& k : t.def.primary) if (changes) t.def.columns[k.column].not_null = true;
        }
        if (c.one_in(4)) t.def.indices.push_back({ t.def.name + "_x", { { t.def.columns.size() - 1, c.pick(2) == 1 } } });
        db.tables[schema][t.def.name] = std::move(t);
    }
    for (auto&& [name, k] : std::map<std::string, tclass> { { "h_int", tclass::i8 }, { "h_small", tclass::i4 }, { "h_str", tclass::str }, { "h_dec", tclass::dec }, { "h_f8", tclass::f8 }, { "h_da", tclass::da }, { "h_bo", tclass::bo } }) db.declare(name, type_of(k));
    for (auto&& [name, k] : std::map<std::string, tclass> { { "g_int", tclass::i8 }, { "g_str", tclass::str } }) db.declare_global(name, type_of(k));
    host("");
    db.start();
    rows(cs.size() > 40 ? cs.substr(cs.size() / 2) : "");
}
void session::rows(std::string const& cs) {
    choices c { cs };
    for (auto& tables : db.tables) for (auto& [n, t] : tables) {
        t.rows.clear();
        t.next.clear();
        auto m = c.pick(7);
        for (std::size_t i = 0; i < m; ++i) {
            row r {};
            for (std::size_t k = 0; k < t.def.columns.size(); ++k) {
                auto& d = t.def.columns[k];
                if (d.d == dflt::sequence) { r.push_back(next_value(t, k)); continue; }
                r.push_back(cast(d.type, random_value(c, class_of(d.type), !d.not_null)));
            }
            std::string m2 {};
            apply_insert(t, { r }, 2, m2);
        }
    }
}
void session::host(std::string const& cs) {
    choices c { cs };
    db.variables["h_int"] = random_value(c, tclass::i8);
    db.variables["h_small"] = random_value(c, tclass::i4);
    db.variables["h_str"] = random_value(c, tclass::str);
    db.variables["h_dec"] = random_value(c, tclass::dec);
    db.variables["h_f8"] = random_value(c, tclass::f8);
    db.variables["h_da"] = random_value(c, tclass::da);
    db.variables["h_bo"] = random_value(c, tclass::bo);
    db.variables["g_int"] = random_value(c, tclass::i8);
    db.variables["g_str"] = random_value(c, tclass::str);
}
void session::crash() { rt::count(c_fault_crash); db.start(); }

style session::how(op const& o) {
    style st {};
    st.lowercase = (o.num(a_flags) & af_lower) != 0;
    st.small_integers = (o.num(a_flags) & af_small_integer) != 0;
    st.context_null = (o.num(a_flags) & af_null) != 0;
    return st;
}
vocabulary session::words(op const& o) {
    vocabulary v {};
    v.db = std::addressof(db);
    v.st = how(o);
    v.path = static_cast<int>(o.num(a_path));
    for (auto k : { "h_int:4", "h_small:1", "h_str:2", "h_dec:3", "h_f8:5", "h_da:6", "h_bo:7" }) {
        std::string n = k;
        static tclass const l[] { tclass::last, tclass::i4, tclass::str, tclass::dec, tclass::i8, tclass::f8, tclass::da, tclass::bo };
        auto t = l[n.back() - '0'];
        n.resize(n.size() - 2);
        v.host.emplace_back(n, type_of(t));
    }
    v.globals = { { "g_int", type_of(tclass::i8) }, { "g_str", type_of(tclass::str) } };
    return v;
}

analyzer::sql_analyzer_result session::analyze(std::string const& given, op const& o, int index) {
    // for diagnosis only: another text instead of the given one
    auto* other = std::getenv("DSIM_SQL");
    auto* at = std::getenv("DSIM_AT");
    if (at != nullptr && std::atoi(at) != index) other = nullptr;
    auto const& text = other != nullptr ? std::string { other } : given;
    auto q = make_analyze(text, o.n);
    q.n.resize(a_catalog);
    auto src = parse_source(q);
    if (!src.statement) {
        ::mizugaki::parser::sql_parser p {};
        auto r = p(std::make_shared<::takatori::document::basic_document const>("sim.sql", text));
        fail("refused", "a valid statement does not parse: " + (r.has_diagnostic() ? r.diagnostic().message() : std::string {}) + where(text, index));
    }
    auto options = make_options(db.catalog(), q);
    for (int attempt = 0; attempt < 2; ++attempt) {
        auto f = attempt == 0 ? install_faults(s_, 0, index) : installed_faults {};
        bool fault = f.alloc.at >= 0 || f.catalog;
        try {
            rt::armed x {};
            auto r = call(analyzer_, options, src, db.catalog(), q);
            rt::disarmed d {};
            remove_faults();
            count_result(r);
            if (other != nullptr || (at != nullptr && std::atoi(at) == index)) {
                std::cerr << "RESULT " << r.kind() << errors(r) << '\n';
                if (r.kind() == analyzer::sql_analyzer_result_kind::execution_plan) std::cerr << r.element<analyzer::sql_analyzer_result_kind::execution_plan>() << '\n';
                if (r.kind() == analyzer::sql_analyzer_result_kind::execution_plan) for (auto&& w : db.execute(r).result) { for (auto&& v : w) std::cerr << show(v) << " | "; std::cerr << '\n'; }
            }
            if (fault && r.kind() == analyzer::sql_analyzer_result_kind::diagnostics) continue;
            return r;
        } catch (std::bad_alloc const&) {
            rt::disarmed d {};
            remove_faults();
            rt::count(c_threw);
            if (!fault) fail("exception", "bad_alloc without a fault" + where(text, index));
        } catch (injected_error const&) {
            rt::disarmed d {};
            remove_faults();
            rt::count(c_threw);
            if (!fault) fail("exception", "an injected exception without a fault" + where(text, index));
        } catch (std::exception const& e) {
            rt::disarmed d {};
            remove_faults();
            if (!fault) fail("exception", std::string { "an exception: " } + e.what() + where(text, index));
        }
    }
    fail("exception", "the call failed although faults stopped" + where(text, index));
}

std::string session::where(std::string const& text, int index) const {
    std::string s = "\n  statement (operation " + std::to_string(index) + "): " + text;
    for (int i = 0; i < 3; ++i) for (auto&& [n, t] : db.tables[i]) {
        static char const* const l[] { "pub", "sch2", "third" };
        s += std::string { "\n  " } + l[i] + " " + show(t.def);
        for (std::size_t k = 0; k < t.rows.size() && k < 8; ++k) s += "\n    " + show(t.rows[k]);
    }
    s += "\n  variables:";
    for (auto&& [n, v] : db.variables) s += " " + n + "=" + show(v);
    return s;
}

std::vector<std::pair<std::size_t, std::size_t>> unmark(std::string& text) {
    std::vector<std::pair<std::size_t, std::size_t>> l {};
    std::string r {};
    for (char x : text) {
        if (x == '\x01') l.emplace_back(r.size(), r.size());
        else if (x == '\x02') l.back().second = r.size();
        else r += x;
    }
    text = r;
    return l;
}
std::string show_marks(std::string text, std::vector<std::pair<std::size_t, std::size_t>> const& l) {
    for (auto i = l.rbegin(); i != l.rend(); ++i) { text.insert(i->second, "<<"); text.insert(i->first, ">>"); }
    return text;
}

} // namespace sim::sql
