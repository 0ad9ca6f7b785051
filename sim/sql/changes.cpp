// Changes of rows: statements, and what they do.
#include "changes.h"

#include <algorithm>

namespace sim::sql {
namespace {
value default_of(stored_table& t, std::size_t c) {
    auto& d = t.def.columns[c];
    switch (d.d) {
        case dflt::none: return {};
        case dflt::constant: return d.constant;
        case dflt::function: for (auto&& f : functions()) if (f.name == d.function && f.parameters.empty()) return f.call({}); return {};
        case dflt::sequence: return next_value(t, c);
    }
    return {};
}
std::string key_of(table_def const& t, row const& r) { std::string s {}; for (auto&& k : t.primary) s += key(r[k.column]) + "|"; return s; }
/// a name which is no column here, or only one which cannot be named
std::string wrong_column(choices& c, table_def const& t) {
    for (auto&& x : t.columns) if (x.hidden && !x.synthesized && c.pick(2) == 1) return x.name;
    return "nosuch";
}

} // namespace

change make_insert(maker& m, choices& c, database* db, std::size_t depth) {
    change r {};
    auto t = m.pick_table();
    r.schema = t.schema;
    r.table = t.name;
    auto* def = std::addressof(db->tables[t.schema].at(t.name).def);
    int mode = static_cast<int>(c.pick(3));
    if (m.err(1)) t.text = m.made("a table which does not exist", m.ident("nosuch"), { "table_not_found" });
    static char const* const words[][2] { { "INSERT", "INSERT" }, { "INSERT OR REPLACE", "UPDATE OR INSERT" }, { "INSERT OR IGNORE", "INSERT IF NOT EXISTS" } };
    r.text = std::string { words[mode][c.pick(2)] } + " INTO " + t.text;
    std::vector<std::size_t> all {}, at {};
    for (std::size_t i = 0; i < def->columns.size(); ++i) if (!def->columns[i].hidden) all.push_back(i);
    if (c.pick(3) == 0 || all.empty()) at = all;
    else {
        for (auto i : all) {
            bool wanted = def->columns[i].not_null && def->columns[i].d == dflt::none;
            if (wanted ? !c.one_in(12) : c.pick(3) != 0) at.insert(at.begin() + static_cast<std::ptrdiff_t>(c.pick(at.size() + 1)), i);
        }
        if (at.empty()) at.push_back(all[c.pick(all.size())]);
        r.text += " (";
        for (std::size_t i = 0; i < at.size(); ++i) r.text += (i > 0 ? ", " : "") + m.ident(def->columns[at[i]].name);
        if (m.err(2)) r.text += ", " + (c.pick(2) == 0 ? m.made("a column of INSERT which does not exist", m.ident(wrong_column(c, *def)), { "column_not_found" }) : m.made("a column of INSERT twice", m.ident(def->columns[at[0]].name), { "column_already_exists" }));
        r.text += ")";
    }
    std::function<std::vector<row>()> source {};
    auto kind = c.pick(4);
    if (kind == 3 && c.pick(3) == 2) {
        if (at.size() == all.size()) { at.clear(); r.text += " DEFAULT VALUES"; source = [] { return std::vector<row> { row {} }; }; }
    }
    if (!source && kind == 2 && c.pick(2) == 1) {
        // all visible columns of a table, if they fit: the same table always does
        auto f = m.pick_table();
        for (int attempt = 0; attempt < 2 && !source; ++attempt) {
            if (attempt == 1) f = t;
            auto&& other = db->tables[f.schema].at(f.name).def;
            std::vector<std::size_t> from {};
            for (std::size_t i = 0; i < other.columns.size(); ++i) if (!other.columns[i].hidden) from.push_back(i);
            bool fits = from.size() == at.size();
            for (std::size_t i = 0; fits && i < at.size(); ++i) fits = compatible(class_of(other.columns[from[i]].type), class_of(def->columns[at[i]].type));
            if (!fits) continue;
            switch (c.pick(3)) {
                case 0: r.text += " TABLE " + f.text; break;
                case 1: r.text += " SELECT * FROM " + f.text; break;
                default: r.text += " SELECT q.* FROM " + f.text + " AS q"; break;
            }
            auto schema = f.schema;
            auto name = f.name;
            source = [db, schema, name, from] { std::vector<row> out {}; for (auto&& x : db->tables[schema].at(name).rows) { out.emplace_back(); for (auto i : from) out.back().push_back(x[i]); } return out; };
        }
    }
    if (!source && kind >= 2) {
        std::vector<tclass> want {};
        for (auto i : at) want.push_back(class_of(def->columns[i].type));
        auto q = m.make_query(depth, nullptr, std::addressof(want), false);
        r.text += " " + q.text;
        auto f = q.rows;
        source = [f] { return f(nullptr); };
    }
    if (!source) {
        std::vector<std::vector<ex>> rows {};
        scope none {};
        r.text += " ";
        bool less = m.err(2);
        if (less) r.text += "\x01";
        r.text += "VALUES ";
        struct clause { maker& m; char v; explicit clause(maker& m) : m { m }, v { m.clause } { m.clause = 'v'; } ~clause() { m.clause = v; } } here { m };
        auto n = 1 + (c.pick(2) == 0 ? 0 : c.pick(4));
        for (std::size_t i = 0; i < n; ++i) {
            r.text += i > 0 ? ", (" : "(";
            rows.emplace_back();
            for (std::size_t k = 0; k < at.size(); ++k) {
                auto& d = def->columns[at[k]];
                // the type of a plain NULL is given by the column
                if (c.one_in(d.not_null ? 24 : 7)) { ex e {}; e.text = "NULL"; e.eval = [](ctx const&) { return value {}; }; rows.back().push_back(e); }
                else if (i > 0 && c.one_in(12)) rows.back().push_back(m.subquery(class_of(d.type), 0, std::addressof(none)));
                else rows.back().push_back(m.expression(class_of(d.type), c.one_in(3) ? 1 : 0, std::addressof(none)));
                r.text += (k > 0 ? ", " : "") + rows.back().back().text;
            }
            if (less) r.text += ", 1";
            r.text += ")";
        }
        if (less) { r.text += "\x02"; (void) m.made("different numbers of columns and values", "", { "inconsistent_columns" }, true); }
        source = [rows] {
            std::vector<row> out {};
            row empty {};
            ctx x { std::addressof(empty), 0, nullptr, nullptr };
            for (auto&& l : rows) { out.emplace_back(); for (auto&& e : l) out.back().push_back(e.eval(x)); }
            return out;
        };
    }
    auto schema = r.schema;
    auto name = r.table;
    r.run = [db, schema, name, at, source, mode] {
        auto& t = db->tables[schema].at(name);
        change::effect e {};
        e.after = t;
        auto& n = e.after;
        std::vector<row> rows {};
        for (auto&& v : source()) {
            row x(t.def.columns.size());
            std::vector<bool> set(x.size());
            for (std::size_t i = 0; i < at.size(); ++i) { x[at[i]] = cast(t.def.columns[at[i]].type, v[i]); set[at[i]] = true; }
            for (std::size_t i = 0; i < x.size(); ++i) if (!set[i]) x[i] = default_of(n, i);
            rows.push_back(std::move(x));
        }
        for (std::size_t i = 0; i < t.def.columns.size(); ++i)
            if (t.def.columns[i].d == dflt::sequence && std::find(at.begin(), at.end(), i) == at.end()) e.masked.push_back(i);
        bool generated = std::any_of(t.def.primary.begin(), t.def.primary.end(), [&](key_def const& k) { return std::find(e.masked.begin(), e.masked.end(), k.column) != e.masked.end(); });
        std::map<std::string, std::string> seen {};
        for (auto&& x : t.rows) seen[key_of(t.def, x)] = "old";
        for (auto&& x : rows) {
            auto i = seen.find(key_of(t.def, x));
            if (i == seen.end()) { seen[key_of(t.def, x)] = key(x); continue; }
            e.conflict = true;
            if (generated) e.open = true;
            if (i->second != "old" && mode == 1 && (i->second != key(x) || !e.masked.empty())) e.open = true;
            if (i->second != "old" && mode == 2 && (i->second != key(x) || !e.masked.empty())) e.open = true;
            if (mode == 1) i->second = key(x);
        }
        std::string message {};
        e.failed = !apply_insert(n, rows, mode, message);
        if (e.failed) e.masked.clear();
        return e;
    };
    return r;
}

change make_change(maker& m, choices& c, database* db, std::size_t depth) {
    change r {};
    bool update = c.pick(3) != 2;
    auto t = m.pick_table();
    r.schema = t.schema;
    r.table = t.name;
    auto* def = std::addressof(db->tables[t.schema].at(t.name).def);
    std::string alias {};
    if (m.err(1)) t.text = m.made("a table which does not exist", m.ident("nosuch"), { "table_not_found" });
    r.text = (update ? "UPDATE " : "DELETE FROM ") + t.text;
    if (c.one_in(4)) { static char const* const names[] { "x", "t0", "b", "Zed" }; alias = names[c.pick(4)]; r.text += (c.pick(2) == 0 ? " AS " : " ") + m.ident(alias); }
    auto s = m.relation_scope(t, alias);
    std::vector<std::size_t> at {};
    std::vector<ex> values {};
    if (update) {
        r.text += " SET ";
        std::vector<std::size_t> all {};
        for (std::size_t i = 0; i < def->columns.size(); ++i) if (!def->columns[i].hidden && !def->columns[i].read_only) all.push_back(i);
        if (all.empty()) { update = false; r.text = "DELETE FROM " + r.text.substr(7, r.text.size() - 7 - 5); }
        else for (auto n = 1 + c.pick(3); n > 0 && !all.empty(); --n) {
            auto k = c.pick(all.size());
            auto i = all[k];
            all.erase(all.begin() + static_cast<std::ptrdiff_t>(k));
            r.text += at.empty() ? "" : ", ";
            at.push_back(i);
            auto column = m.ident(def->columns[i].name);
            if (m.err(2)) column = at.size() > 1 && c.pick(2) == 0 ? m.made("a column is set twice", m.ident(def->columns[at[0]].name), { "column_already_exists" }) : m.made("a column of UPDATE which does not exist", m.ident(wrong_column(c, *def)), { "column_not_found" });
            r.text += column + " = ";
            m.clause = 's';
            if (c.one_in(def->columns[i].not_null ? 24 : 8)) { ex e {}; e.text = "NULL"; e.eval = [](ctx const&) { return value {}; }; values.push_back(e); }
            else values.push_back(m.expression(class_of(def->columns[i].type), depth, std::addressof(s)));
            r.text += values.back().text;
        }
    }
    eval_fn where {};
    m.clause = 'd';
    if (!c.one_in(4)) { auto e = m.condition(depth, std::addressof(s)); r.text += " WHERE " + e.text; where = e.eval; }
    auto schema = r.schema;
    auto name = r.table;
    r.run = [db, schema, name, at, values, where, update] {
        auto& t = db->tables[schema].at(name);
        change::effect e {};
        e.after = t;
        std::vector<std::size_t> which {};
        std::vector<row> rows {};
        for (std::size_t i = 0; i < t.rows.size(); ++i) {
            ctx x { std::addressof(t.rows[i]), 0, nullptr, nullptr };
            if (where && of(where(x)) != ternary::yes) continue;
            which.push_back(i);
            rows.push_back(t.rows[i]);
            for (std::size_t k = 0; k < at.size(); ++k) rows.back()[at[k]] = cast(t.def.columns[at[k]].type, values[k].eval(x));
        }
        std::string message {};
        if (update) e.failed = !apply_update(e.after, which, rows, message);
        else apply_delete(e.after, which);
        return e;
    };
    return r;
}

namespace {
std::string list(std::vector<row> const& l) { std::string s {}; std::size_t n = 0; for (auto&& r : l) { if (++n > 12) { s += " ..."; break; } s += " " + show(r); } return s.empty() ? std::string { " (no rows)" } : s; }
std::string same_rows(std::vector<row> const& expected, std::vector<row> const& actual, std::vector<std::size_t> const& masked, bool compare_masked) {
    auto bad = [&](std::string const& m) { return m + "\n  expected:" + list(expected) + "\n  actual:  " + list(actual); };
    auto keys = [&](std::vector<row> const& rows) {
        std::vector<std::string> l {};
        for (auto r : rows) { for (auto i : masked) r[i] = {}; l.push_back(key(r)); }
        std::sort(l.begin(), l.end());
        return l;
    };
    if (keys(expected) != keys(actual)) return bad("the rows of the table are wrong");
    if (compare_masked) for (auto i : masked) {
        auto values = [&](std::vector<row> const& rows) { std::vector<std::string> l {}; for (auto&& r : rows) l.push_back(key(r[i])); std::sort(l.begin(), l.end()); return l; };
        if (values(expected) != values(actual)) return bad("the generated values are wrong");
    }
    return {};
}
} // namespace

void perform(session& c, change const& x, analyzer::sql_analyzer_result const& r, int i) {
    std::string m {};
    rt::scratch temporary {};
    std::map<std::string, stored_table> before[3] {};
    for (int n = 0; n < 3; ++n) before[n] = c.db.tables[n];
    try {
        budget = 10000;
        auto e = x.run();
        rt::count(c_rows, e.after.rows.size());
        std::map<std::string, stored_table> others[3] {};
        for (int n = 0; n < 3; ++n) others[n] = c.db.tables[n];
        others[x.schema].at(x.table) = e.after;
        budget = 100000;
        auto o = c.db.execute(r);
        if (e.open) { rt::count(c_too_large); return; }
        if (o.kind != outcome::changed && o.kind != outcome::failed) m = "the statement does not change rows";
        else if ((o.kind == outcome::failed) != e.failed) m = e.failed ? "the statement does not violate a constraint, but should" : "the statement violates a constraint, but should not: " + o.message;
        for (int n = 0; m.empty() && n < 3; ++n) for (auto&& [name, t] : others[n]) {
            auto& is = c.db.tables[n].at(name);
            bool target = n == x.schema && name == x.table;
            m = same_rows(t.rows, is.rows, target ? e.masked : std::vector<std::size_t> {}, target && !e.conflict);
            if (!m.empty()) { m = "table \"" + name + "\": " + m; break; }
        }
    } catch (too_large const&) {
        rt::count(c_too_large);
        return;
    } catch (plan_error const& e) {
        m = "the statement cannot be executed: " + e.message;
    }
    rt::count(c_compared);
    if (!m.empty()) { for (int n = 0; n < 3; ++n) c.db.tables[n] = before[n]; fail("wrong-change", m + c.where(x.text, i)); }
}

} // namespace sim::sql
