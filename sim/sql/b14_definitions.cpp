// B14: definitions become exactly what the statements say.
#include "changes.h"

#include <algorithm>
#include <cstdlib>
#include <iostream>
#include <set>

namespace sim::sql {
namespace {

constexpr char const* id = "B14";
using code = analyzer::sql_analyzer_code;

/// the durable state which definitions change
struct state { std::map<std::string, stored_table> tables[3] {}; std::vector<std::string> grants {}; };
struct definition {
    std::string text {};
    std::set<code> refused {};                  // or the codes it can be refused by
    std::function<void(state&)> apply {};       // nothing: no effect
};

char const* const schema_names[] { "pub", "sch2", "third" };
char const* const table_names[] { "t0", "t1", "t2", "Orders", "items", "n1", "Mixed", "n2" };
char const* const column_names[] { "a", "b", "c", "k", "v", "d", "order_no", "Mix", "e", "f", "g", "value2" };
char const* const index_names[] { "x1", "x2", "Idx", "t0_x", "t1_x", "items_x", "x3" };

class definer {
public:
    definer(choices& c, maker& m, vocabulary const& v) : c_ { c }, m_ { m }, v_ { v }, db_ { *v.db } {}

    definition make(std::string const& kind) {
        if (kind == "create") return c_.pick(4) == 3 ? create_index() : create_table();
        if (kind == "alter") return c_.pick(3) == 2 ? alter_index() : alter_table();
        if (kind == "drop") { auto k = c_.pick(4); return k == 2 ? drop_index() : k == 3 ? truncate() : drop_table(); }
        return privileges();
    }
private:
    choices& c_;
    maker& m_;
    vocabulary const& v_;
    database& db_;

    std::string ident(std::string const& n) { return m_.ident(n); }
    std::vector<int> path() const { if (v_.path == 1) return { 1, 0 }; if (v_.path == 3) return { 0 }; return { 0, 1 }; }
    int visible(std::string const& name) const { for (auto i : path()) if (db_.tables[i].count(name) != 0) return i; return -1; }
    bool index_in(int schema, std::string const& name) const {
        for (auto&& [n, t] : db_.tables[schema]) { if (n == name) return true; for (auto&& i : t.def.indices) if (i.name == name) return true; }
        return false;
    }
    int visible_index(std::string const& name) const { for (auto i : path()) if (index_in(i, name)) return i; return -1; }

    /// a table, or (rarely) the name of none
    struct reference { bool exists { false }; int schema { 0 }; std::string name {}; std::string text {}; };
    reference table() {
        if (c_.one_in(6)) {
            std::string n = table_names[c_.pick(8)];
            if (c_.pick(2) == 0) { if (visible(n) < 0) return { false, 0, n, ident(n) }; }
            else { auto s = static_cast<int>(c_.pick(3)); if (db_.tables[s].count(n) == 0) return { false, s, n, ident(schema_names[s]) + "." + ident(n) }; }
        }
        if (db_.tables[0].empty() && db_.tables[1].empty() && db_.tables[2].empty()) return { false, 0, "no_table", "no_table" };
        auto t = m_.pick_table();
        return { true, t.schema, t.name, t.text };
    }
    reference index() {
        std::vector<std::pair<int, std::string>> l {};
        for (int s = 0; s < 3; ++s) for (auto&& [n, t] : db_.tables[s]) for (auto&& i : t.def.indices) l.emplace_back(s, i.name);
        if (l.empty() || c_.one_in(6)) {
            std::string n = index_names[c_.pick(7)];
            if (visible_index(n) < 0) return { false, 0, n, ident(n) };
            n = "no_index";
            return { false, 0, n, ident(n) };
        }
        auto [s, n] = l[c_.pick(l.size())];
        auto q = ident(n);
        if (visible_index(n) != s || c_.one_in(5)) q = ident(schema_names[s]) + "." + q;
        return { true, s, n, q };
    }
    /// a description of several lines with all kinds of decoration; what it says is the text without decoration, without blank lines
    /// around it and without the indentation which all of its lines have, line by line
    std::string drawn_description(std::string& expected) {
        static char const* const words[] { "about", "* item", "a/b", "x  y", "\xe3\x81\x82", "-- z", "'quoted'", "; /*", "1 * 2" };
        static char const* const indents[] { "", " ", "  ", "\t", " \t", "    " };
        static char const* const tails[] { "", "", " ", "\t ", "\r" };
        struct line { std::string indent, text; };
        std::vector<line> lines {};
        std::string comment {};
        auto common = indents[c_.pick(6)];
        auto n = 1 + c_.pick(5);
        bool starred = c_.one_in(2);
        for (std::size_t i = 0; i < n; ++i) {
            line x {};
            bool blank = c_.one_in(4);
            bool star = i > 0 && (c_.one_in(4) ? !starred : starred);
            x.indent = std::string { common } + indents[c_.pick(6)];
            if (!blank) x.text = words[c_.pick(9)];
            // NOTE: what follows the mark of a line, and a line without a mark, do not begin with an asterisk themselves
            if (!x.text.empty() && x.text[0] == '*' && (x.indent.empty() || !star)) x.text = "item";
            if (i == 0) comment = c_.one_in(6) ? "/***" : "/**"; else { comment += "\n"; if (star) comment += std::string { indents[c_.pick(6)] } + (c_.one_in(5) ? "**" : "*"); }
            // NOTE: `*` next to `/` ends the comment
            comment += x.indent + x.text + (i + 1 < n ? tails[c_.pick(5)] : "");
            lines.push_back(x);
        }
        if (c_.one_in(2)) comment += "\n" + std::string { indents[c_.pick(6)] } + "*/"; else comment += c_.one_in(4) ? " **/" : " */";
        while (!lines.empty() && lines.front().text.empty()) lines.erase(lines.begin());
        while (!lines.empty() && lines.back().text.empty()) lines.pop_back();
        std::size_t cut = lines.empty() ? 0 : lines[0].indent.size();
        for (auto&& x : lines) if (!x.text.empty()) while (cut > 0 && x.indent.compare(0, cut, lines[0].indent, 0, cut) != 0) --cut;
        for (auto&& x : lines) expected += (&x == &lines[0] ? "" : "\n") + (x.text.empty() ? std::string {} : x.indent.substr(cut) + x.text);
        if (c_.one_in(4)) comment += " /* not this */";
        if (c_.one_in(6)) comment = "/** older */ " + comment;
        return comment + (c_.one_in(5) ? " -- nor this\n" : "\n");
    }
    /// a comment which describes what follows, or another one
    std::string description(std::string& expected) {
        static char const* const words[] { "about this", "value of x", "it's * here", "path/to", "\xe3\x81\x82", "NOT NULL", "\"x\"" };
        expected.clear();
        auto k = c_.pick(10);
        if (k >= 8) return drawn_description(expected);
        std::string a = words[c_.pick(7)], b = words[c_.pick(7)];
        switch (k) {
            case 3: expected = a; return "/** " + a + " */ ";
            case 4: expected = a + "\n  " + b; return "/**\n * " + a + "\n *   " + b + "\n */\n";
            case 5: return "/* " + a + " */ ";
            case 6: return "-- " + a + "\n";
            case 7: expected = b; return "/** " + a + " */\n/** " + b + " */ ";
            default: return "";
        }
    }
    vtype column_type(std::string& text) {
        struct named { char const* text; vtype type; };
        auto t = [](kind k, int width = 8, int precision = -1, int scale = -1, bool zoned = false, bool fixed = false) { vtype r {}; r.k = k; r.width = width; r.precision = precision; r.scale = scale; r.zoned = zoned; r.fixed = fixed; return r; };
        named const l[] {
            { "BIGINT", t(kind::integer) }, { "INT", t(kind::integer, 4) }, { "INTEGER", t(kind::integer, 4) }, { "VARCHAR(20)", t(kind::text, 8, 20) }, { "DECIMAL(10,2)", t(kind::decimal, 8, 10, 2) }, { "DOUBLE", t(kind::floating) },
            { "BOOLEAN", t(kind::boolean) }, { "DATE", t(kind::date) }, { "TIMESTAMP", t(kind::stamp) }, { "TIME", t(kind::time) }, { "VARBINARY(*)", t(kind::bytes) }, { "TIMESTAMP WITH TIME ZONE", t(kind::stamp, 8, -1, -1, true) },
            { "VARCHAR", t(kind::text) }, { "VARCHAR(*)", t(kind::text) }, { "CHARACTER VARYING(7)", t(kind::text, 8, 7) }, { "DOUBLE PRECISION", t(kind::floating) }, { "FLOAT(53)", t(kind::floating) }, { "DECIMAL(*, *)", t(kind::decimal) },
            { "DECIMAL", t(kind::decimal, 8, 38, 0) }, { "DECIMAL(5)", t(kind::decimal, 8, 5, 0) }, { "DECIMAL(38, 38)", t(kind::decimal, 8, 38, 38) }, { "NUMERIC(4,0)", t(kind::decimal, 8, 4, 0) }, { "DECIMAL(*, 3)", t(kind::decimal, 8, -1, 3) },
            { "SMALLINT", t(kind::integer, 2) }, { "TINYINT", t(kind::integer, 1) }, { "REAL", t(kind::floating, 4) }, { "FLOAT", t(kind::floating, 4) }, { "FLOAT(24)", t(kind::floating, 4) },
            { "CHAR", t(kind::text, 8, 1, -1, false, true) }, { "CHARACTER(3)", t(kind::text, 8, 3, -1, false, true) }, { "BINARY(4)", t(kind::bytes, 8, 4, -1, false, true) }, { "VARBINARY(9)", t(kind::bytes, 8, 9) }, { "TIME WITH TIME ZONE", t(kind::time, 8, -1, -1, true) },
            { "TIMESTAMP WITHOUT TIME ZONE", t(kind::stamp) }, { "TIME WITHOUT TIME ZONE", t(kind::time) }, { "BINARY VARYING(5)", t(kind::bytes, 8, 5) },
            { "BINARY", t(kind::bytes, 8, 1, -1, false, true) }, { "BINARY VARYING", t(kind::bytes) }, { "VARBINARY", t(kind::bytes) }, { "CHARACTER", t(kind::text, 8, 1, -1, false, true) }, { "CHAR(5)", t(kind::text, 8, 5, -1, false, true) },
            { "CHARACTER VARYING", t(kind::text) }, { "CHAR VARYING(3)", t(kind::text, 8, 3) }, { "NUMERIC", t(kind::decimal, 8, 38, 0) }, { "NUMERIC(7, 2)", t(kind::decimal, 8, 7, 2) }, { "DECIMAL(*)", t(kind::decimal, 8, -1, 0) }, { "DEC(6,1)", t(kind::decimal, 8, 6, 1) },
        };
        auto& x = l[c_.pick(c_.one_in(3) ? std::size(l) : 12)];
        text = x.text;
        return x.type;
    }
    std::string number(long v) { return v < 0 ? "-" + std::to_string(-v) : c_.one_in(8) ? "+" + std::to_string(v) : std::to_string(v); }
    /// marks what can be reported
    static std::string wrong(bool b, std::string const& t) { return b ? "\x01" + t + "\x02" : t; }

    /// options of a sequence; false if they are refused
    bool sequence(column_def& d, std::string& text) {
        bool ok = true;
        bool small = d.type.width == 4;
        auto& q = d.seq;
        static long const steps[] { 1, 2, 10, -1, -3, 0 };
        static long const bounds[] { 1, 0, 100, -100, 7, -7, 1000000, 2147483647L, -2147483648L, 2147483648L };
        std::vector<std::string> options {};
        q.increment = 1;
        q.cycle = (v_.sequence_cycle);
        auto pick = [&](long& v) { v = bounds[c_.pick(10)]; if (small && (v > 2147483647L || v < -2147483648L)) ok = false; return number(v); };
        if (c_.one_in(3)) { q.increment = steps[c_.pick(6)]; options.push_back((c_.pick(2) == 0 ? "INCREMENT BY " : "INCREMENT ") + number(q.increment)); if (q.increment == 0) ok = false; }
        q.min = q.increment > 0 ? 1 : small ? -2147483648L : -9223372036854775807L - 1;
        q.max = q.increment > 0 ? small ? 2147483647L : 9223372036854775807L : -1;
        if (c_.one_in(4)) options.push_back("MINVALUE " + pick(q.min)); else if (c_.one_in(6)) options.emplace_back("NO MINVALUE");
        if (c_.one_in(4)) options.push_back("MAXVALUE " + pick(q.max)); else if (c_.one_in(6)) options.emplace_back("NO MAXVALUE");
        q.initial = q.increment > 0 ? q.min : q.max;
        if (c_.one_in(4)) options.push_back((c_.pick(2) == 0 ? "START WITH " : "START ") + pick(q.initial));
        if (q.initial < q.min || q.initial > q.max) ok = false;
        if (c_.one_in(4)) { q.cycle = c_.pick(2) == 0; options.emplace_back(q.cycle ? "CYCLE" : "NO CYCLE"); }
        if (!options.empty()) {
            text += " (";
            bool first = true;
            while (!options.empty()) { auto k = c_.pick(options.size()); text += (first ? "" : " ") + options[k]; options.erase(options.begin() + static_cast<std::ptrdiff_t>(k)); first = false; }
            text += ")";
        }
        return ok;
    }

    definition create_table() {
        definition r {};
        table_def t {};
        t.name = table_names[c_.pick(8)];
        r.text = description(t.description) + "CREATE TABLE ";
        bool optional = c_.one_in(4);
        if (optional) r.text += "IF NOT EXISTS ";
        bool exists = visible(t.name) >= 0;
        r.text += wrong(exists && !optional, ident(t.name)) + " (";
        auto n = 1 + c_.pick(5);
        auto start = c_.pick(12);
        std::vector<std::string> elements {};
        for (std::size_t i = 0; i < n; ++i) {
            column_def d {};
            d.name = column_names[(start + i * 5) % 12];
            bool same = c_.one_in(30) && i > 0;
            if (same) { d.name = t.columns.back().name; r.refused.insert(code::column_already_exists); }
            std::string type {};
            d.type = column_type(type);
            auto e = description(d.description) + wrong(same, ident(d.name)) + " " + type;
            std::vector<std::string> constraints {};
            auto nullity = c_.pick(5);
            bool primary = t.primary.empty() && c_.one_in(6);
            bool again = !t.primary.empty() && c_.one_in(40);
            if (nullity == 1) { constraints.emplace_back("NOT NULL"); d.not_null = true; }
            else if (nullity == 2 && !primary && !again) constraints.emplace_back("NULL");
            if (primary || again) {
                if (again) r.refused.insert(code::primary_index_already_exists);
                constraints.emplace_back("PRIMARY KEY");
                d.not_null = true;
                if (primary) t.primary.push_back({ i, false });
            }
            std::string value {};
            auto kind = c_.pick(8);
            if (kind >= 4 && kind <= 5) {
                auto k = class_of(d.type);
                auto v = random_value(c_, k, false);
                if (d.type.k == sim::sql::kind::integer && d.type.width < 8) v = integer(v.i % 100);
                if (d.type.k == sim::sql::kind::time && d.type.zoned) v = {};
                if (c_.one_in(6)) v = {};
                auto l = literal(c_, v_.st, v, d.type);
                if (v.k == sim::sql::kind::integer && v.i < 0) l = number(v.i);
                value = "DEFAULT " + (c_.one_in(5) && !v.null() ? "CAST(" + l + " AS " + type + ")" : l);
                d.d = dflt::constant;
                d.constant = cast(d.type, v);
            } else if (kind == 6 && (d.type.k == sim::sql::kind::integer || d.type.k == sim::sql::kind::text) && (d.type.width >= 4)) {
                d.d = dflt::function;
                d.function = d.type.k == sim::sql::kind::integer ? "four" : "hello";
                value = "DEFAULT " + (v_.st.lowercase ? ident(d.function) : d.function) + "()";
            } else if (kind == 7) {
                bool always = c_.pick(2) == 0;
                value = always ? "GENERATED ALWAYS AS IDENTITY" : "GENERATED BY DEFAULT AS IDENTITY";
                d.read_only = always;
                d.d = dflt::sequence;
                bool number = d.type.k == sim::sql::kind::integer && d.type.width >= 4;
                bool ok = sequence(d, value);
                if (!number) r.refused.insert(code::inconsistent_type);
                if (!ok) r.refused.insert(code::invalid_sequence_value);
            }
            if (!value.empty()) constraints.push_back(value);
            while (!constraints.empty()) {
                auto k = c_.pick(constraints.size());
                e += (c_.one_in(10) ? " CONSTRAINT " + ident("c" + std::to_string(k)) : std::string {}) + " " + constraints[k];
                constraints.erase(constraints.begin() + static_cast<std::ptrdiff_t>(k));
            }
            elements.push_back(std::move(e));
            t.columns.push_back(std::move(d));
        }
        if (c_.pick(2) == 1 && (t.primary.empty() || c_.one_in(30))) {
            if (!t.primary.empty()) r.refused.insert(code::primary_index_already_exists);
            std::vector<key_def> keys {};
            std::string e = c_.one_in(4) ? "CONSTRAINT " + ident("pk") + " PRIMARY KEY (" : "PRIMARY KEY (";
            for (auto k = 1 + c_.pick(3); k > 0; --k) {
                auto at = c_.pick(t.columns.size());
                bool twice = std::any_of(keys.begin(), keys.end(), [&](key_def const& x) { return x.column == at; });
                if (twice && !c_.one_in(12)) continue;
                if (twice) r.refused.insert(code::column_already_exists);
                bool desc = c_.one_in(3);
                e += (keys.empty() ? "" : ", ") + wrong(twice, ident(t.columns[at].name)) + (desc ? " DESC" : c_.one_in(5) ? " ASC" : "");
                keys.push_back({ at, desc });
            }
            elements.insert(elements.begin() + static_cast<std::ptrdiff_t>(c_.pick(2) == 0 ? elements.size() : c_.pick(elements.size() + 1)), e + ")");
            if (t.primary.empty()) t.primary = std::move(keys);
            for (auto&& k : t.primary) t.columns[k.column].not_null = true;
        }
        for (std::size_t i = 0; i < elements.size(); ++i) r.text += (i > 0 ? ", " : "") + elements[i];
        r.text += ")";
        for (auto&& d : t.columns) if (!d.not_null && d.d == dflt::none) d.d = dflt::constant;       // NULL
        if (exists) {
            r.refused.clear();
            if (!optional) r.refused = { code::table_already_exists };
            return r;
        }
        complete(t);
        r.apply = [t](state& s) { s.tables[0][t.name] = stored_table { t, {}, {} }; };
        return r;
    }

    definition create_index() {
        definition r {};
        index_def x {};
        r.text = description(x.description) + "CREATE INDEX ";
        bool optional = c_.one_in(4);
        bool exists = false;
        std::string name {};
        if (!c_.one_in(5)) { x.name = index_names[c_.pick(7)]; exists = visible_index(x.name) >= 0; name = wrong(exists, ident(x.name)) + " "; }
        else optional = false;
        if (optional) r.text += "IF NOT EXISTS ";
        auto t = table();
        // NOTE: indices are created in the default schema
        if (t.exists && t.schema != 0) for (auto&& [n, other] : db_.tables[0]) { t = { true, 0, n, ident(schema_names[0]) + "." + ident(n) }; break; }
        if (t.exists && t.schema != 0) t = { false, 0, "no_table", ident("no_table") };
        r.text += name + "ON " + wrong(!t.exists, t.text) + " (";
        if (!t.exists) {
            r.text += "a)";
            if (exists) { if (!optional) r.refused = { code::index_already_exists }; return r; }
            r.refused = { code::table_not_found };
            return r;
        }
        auto& def = db_.tables[t.schema].at(t.name).def;
        std::vector<std::size_t> all {};
        for (std::size_t i = 0; i < def.columns.size(); ++i) if (!def.columns[i].hidden) all.push_back(i);
        std::set<std::size_t> seen {};
        for (auto k = 1 + c_.pick(3); k > 0; --k) {
            auto at = all[c_.pick(all.size())];
            bool twice = !seen.insert(at).second;
            if (twice) { if (!c_.one_in(12)) continue; r.refused.insert(code::column_already_exists); }
            bool desc = c_.one_in(3);
            r.text += (x.keys.empty() ? "" : ", ") + wrong(twice, ident(def.columns[at].name)) + (desc ? " DESC" : c_.one_in(5) ? " ASC" : "");
            x.keys.push_back({ at, desc });
        }
        if (c_.one_in(20)) { r.text += ", " + wrong(true, ident("no_column")); r.refused.insert({ code::variable_not_found, code::column_not_found, code::symbol_not_found }); }
        r.text += ")";
        if (exists) { r.refused.clear(); if (!optional) r.refused = { code::index_already_exists }; return r; }
        x.name = index_name(def, x.name);
        if (index_in(0, x.name)) x.name += "_";
        auto n = t.name;
        r.apply = [n, x](state& s) { s.tables[0].at(n).def.indices.push_back(x); };
        return r;
    }

    definition alter_table() {
        definition r {};
        auto t = table();
        bool optional = c_.one_in(3);
        r.text = std::string { "ALTER TABLE " } + (optional ? "IF EXISTS " : "") + wrong(!t.exists, t.text);
        bool table_rename = c_.pick(2) == 0;
        if (table_rename) {
            std::string n = table_names[c_.pick(8)];
            r.text += " RENAME TO " + wrong(t.exists, ident(n));
            if (!t.exists) { if (!optional) r.refused = { code::table_not_found }; return r; }
            if (db_.tables[t.schema].count(n) != 0) { r.refused = { code::table_already_exists }; return r; }
            // the new name can be that of an index: the primary index is named like its table
            if (index_in(t.schema, n)) { n = "renamed_" + std::to_string(c_.pick(9)); r.text = std::string { "ALTER TABLE " } + (optional ? "IF EXISTS " : "") + t.text + " RENAME TO " + n; if (index_in(t.schema, n)) { r.refused = { code::table_already_exists }; return r; } }
            r.apply = [t, n](state& s) { auto x = s.tables[t.schema].at(t.name); x.def.name = n; s.tables[t.schema].erase(t.name); s.tables[t.schema][n] = std::move(x); };
            return r;
        }
        std::string from = column_names[c_.pick(12)], to = column_names[c_.pick(12)];
        if (t.exists && !c_.one_in(6)) { auto& l = db_.tables[t.schema].at(t.name).def.columns; auto& d = l[c_.pick(l.size())]; if (!d.hidden) from = d.name; }
        bool column_optional = c_.one_in(4);
        bool known = false;
        if (t.exists) for (auto&& d : db_.tables[t.schema].at(t.name).def.columns) if (d.name == from) known = true;
        r.text += std::string { " RENAME COLUMN " } + (column_optional ? "IF EXISTS " : "") + wrong(t.exists && !known, ident(from)) + " TO " + wrong(known, ident(to));
        if (!t.exists) { if (!optional) r.refused = { code::table_not_found }; return r; }
        auto& l = db_.tables[t.schema].at(t.name).def.columns;
        auto find = [&](std::string const& n) { return std::find_if(l.begin(), l.end(), [&](column_def const& d) { return d.name == n; }); };
        auto at = find(from);
        if (at == l.end()) { if (!column_optional) r.refused = { code::column_not_found }; return r; }
        if (find(to) != l.end()) { r.refused = { code::column_already_exists }; return r; }
        auto k = static_cast<std::size_t>(at - l.begin());
        r.apply = [t, k, to](state& s) { s.tables[t.schema].at(t.name).def.columns[k].name = to; };
        return r;
    }
    definition alter_index() {
        definition r {};
        auto x = index();
        bool optional = c_.one_in(3);
        std::string n = index_names[c_.pick(7)];
        // NOTE: indices cannot have the name of a table, because the primary index has it
        if (c_.one_in(8)) n = table_names[c_.pick(8)];
        if (!index_in(x.schema, n) && std::find(std::begin(table_names), std::end(table_names), n) != std::end(table_names)) n = "x4";
        r.text = std::string { "ALTER INDEX " } + (optional ? "IF EXISTS " : "") + wrong(!x.exists, x.text) + " RENAME TO " + wrong(x.exists, ident(n));
        if (!x.exists) { if (!optional) r.refused = { code::index_not_found }; return r; }
        if (index_in(x.schema, n)) { r.refused = { code::index_already_exists }; return r; }
        r.apply = [x, n](state& s) { for (auto& [name, t] : s.tables[x.schema]) for (auto& i : t.def.indices) if (i.name == x.name) i.name = n; };
        return r;
    }
    definition drop_table() {
        definition r {};
        auto t = table();
        bool optional = c_.one_in(3);
        auto behaviour = c_.pick(8);
        r.text = std::string { "DROP TABLE " } + (optional ? "IF EXISTS " : "") + wrong(!t.exists, t.text) + (behaviour == 6 ? " RESTRICT" : behaviour == 7 ? " CASCADE" : "");
        if (behaviour == 7) { r.refused = { code::unsupported_feature }; return r; }
        if (!t.exists) { if (!optional) r.refused = { code::table_not_found }; return r; }
        r.apply = [t](state& s) { s.tables[t.schema].erase(t.name); };
        return r;
    }
    definition drop_index() {
        definition r {};
        auto x = index();
        bool optional = c_.one_in(3);
        auto behaviour = c_.pick(8);
        r.text = std::string { "DROP INDEX " } + (optional ? "IF EXISTS " : "") + wrong(!x.exists, x.text) + (behaviour == 6 ? " RESTRICT" : behaviour == 7 ? " CASCADE" : "");
        if (behaviour == 7) { r.refused = { code::unsupported_feature }; return r; }
        if (!x.exists) { if (!optional) r.refused = { code::index_not_found }; return r; }
        r.apply = [x](state& s) { for (auto& [name, t] : s.tables[x.schema]) { auto& l = t.def.indices; l.erase(std::remove_if(l.begin(), l.end(), [&](index_def const& i) { return i.name == x.name; }), l.end()); } };
        return r;
    }
    definition truncate() {
        definition r {};
        auto t = table();
        auto k = c_.pick(3);
        r.text = "TRUNCATE TABLE " + wrong(!t.exists, t.text) + (k == 1 ? " RESTART IDENTITY" : k == 2 ? " CONTINUE IDENTITY" : "");
        if (!t.exists) { r.refused = { code::table_not_found }; return r; }
        r.apply = [t, k](state& s) { auto& x = s.tables[t.schema].at(t.name); x.rows.clear(); if (k == 1) x.next.clear(); };
        return r;
    }
    definition privileges() {
        definition r {};
        bool grant = c_.pick(2) == 0;
        static char const* const actions[] { "SELECT", "INSERT", "UPDATE", "DELETE" };
        static char const* const granted[] { "select", "insert", "update", "delete" };
        std::vector<std::string> what {};
        r.text = grant ? "GRANT " : "REVOKE ";
        if (c_.one_in(4)) { r.text += "ALL PRIVILEGES"; what.emplace_back("control"); }
        else for (auto n = 1 + c_.pick(3); n > 0; --n) { auto k = c_.pick(4); r.text += (what.empty() ? "" : ", ") + std::string { actions[k] }; what.emplace_back(granted[k]); }
        r.text += " ON ";
        std::vector<std::pair<int, std::string>> tables {};
        for (auto n = 1 + c_.pick(3), i = n; i > 0; --i) {
            auto t = table();
            r.text += (i == n ? "" : ", ") + std::string { c_.pick(2) == 0 ? "" : "TABLE " } + wrong(!t.exists, t.text);
            if (!t.exists) { r.refused = { code::table_not_found }; continue; }
            std::pair<int, std::string> key { t.schema, t.name };
            if (std::find(tables.begin(), tables.end(), key) == tables.end()) tables.push_back(key);
        }
        r.text += grant ? " TO " : " FROM ";
        std::string list {};
        bool all = false;
        for (auto& a : what) list += " " + a;
        std::string to_public {}, entries {};
        std::set<std::string> seen {};
        for (auto n = 1 + c_.pick(3), i = n; i > 0; --i) {
            if (i < n) r.text += ", ";
            switch (c_.pick(c_.one_in(4) ? 5 : 3)) {
                case 2: r.text += "PUBLIC"; to_public = list; break;
                case 3: r.text += "CURRENT_USER"; entries += " current_user=:" + list; break;
                case 4: r.text += "*"; all = true; entries += " all_users=:" + list; break;
                default: {
                    static char const* const users[] { "alice", "bob", "carol" };
                    std::string u = users[c_.pick(3)];
                    r.text += c_.one_in(3) ? "\"" + u + "\"" : u;
                    if (seen.insert(u).second) entries += " specified=" + u + ":" + list;
                }
            }
        }
        if (all && grant) r.refused.insert(code::malformed_syntax);
        r.apply = [=](state& s) { for (auto&& [schema, n] : tables) s.grants.push_back((grant ? "grant " : "revoke ") + std::to_string(schema) + "." + n + " public:" + to_public + entries); };
        return r;
    }
};

std::string describe(std::map<std::string, stored_table> const (&tables)[3], std::vector<std::string> const& grants) {
    std::string s {};
    for (int i = 0; i < 3; ++i) for (auto&& [n, t] : tables[i]) {
        s += std::string { schema_names[i] } + "." + n + " " + show(t.def) + "\n";
        for (auto&& r : t.rows) s += "    " + show(r) + "\n";
        for (auto&& [c, v] : t.next) s += "    next of " + std::to_string(c) + " is " + std::to_string(v) + "\n";
    }
    for (auto&& g : grants) s += g + "\n";
    return s;
}
/// the lines which differ
std::string difference(std::string const& expected, std::string const& actual) {
    auto lines = [](std::string const& s) { std::vector<std::string> l {}; std::size_t b = 0; while (b < s.size()) { auto e = s.find('\n', b); l.push_back(s.substr(b, e - b)); b = e + 1; } return l; };
    auto a = lines(expected), b = lines(actual);
    std::string r {};
    for (auto&& x : a) if (std::find(b.begin(), b.end(), x) == b.end()) r += "\n  missing:  " + x;
    for (auto&& x : b) if (std::find(a.begin(), a.end(), x) == a.end()) r += "\n  instead: " + x;
    return r.empty() ? "\n  the order is different:\n" + actual : r;
}

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        session c { s };
        c.schema("", true);
        for (std::size_t n = 0; n < s.threads[0].size(); ++n) {
            auto&& o = s.threads[0][n];
            auto i = static_cast<int>(n);
            if (o.kind == "schema") { c.schema(o.str(0), true); continue; }
            if (o.kind == "rows") { c.rows(o.str(0)); continue; }
            if (o.kind == "host") { c.host(o.str(0)); continue; }
            if (o.kind == "crash") { c.crash(); continue; }
            choices ch { o.str(0) };
            auto v = c.words(o);
            maker m { ch, v };
            std::size_t tables = 0, usable = 0;
            for (auto&& l : c.db.tables) for (auto&& [name, t] : l) { ++tables; if (ordinary(t.def)) ++usable; }
            if (tables == 0 && o.kind != "create") continue;
            if (o.kind == "insert" || o.kind == "change") {
                if (usable == 0) continue;
                v.ordinary = true;
                auto depth = static_cast<std::size_t>(o.num(q_depth));
                auto x = o.kind == "insert" ? make_insert(m, ch, std::addressof(c.db), depth) : make_change(m, ch, std::addressof(c.db), depth);
                auto r = c.analyze(x.text, o, i);
                if (r.kind() == analyzer::sql_analyzer_result_kind::diagnostics) fail("refused", "a valid statement is refused:" + errors(r) + c.where(x.text, i));
                perform(c, x, r, i);
                continue;
            }
            v.sequence_cycle = (o.num(a_flags) & af_cycle) != 0;
            auto d = definer { ch, m, v }.make(o.kind);
            auto places = unmark(d.text);
            if (std::getenv("DSIM_SHOW") != nullptr) std::cerr << "TEXT " << d.text << std::endl;
            auto r = c.analyze(d.text, o, i);
            rt::scratch temporary {};
            rt::count(c_compared);
            if (r.kind() == analyzer::sql_analyzer_result_kind::diagnostics) {
                if (d.refused.empty()) fail("refused", "a valid statement is refused:" + errors(r) + c.where(d.text, i));
                for (auto&& x : r.element<analyzer::sql_analyzer_result_kind::diagnostics>()) {
                    if (d.refused.count(x.code()) == 0) fail("wrong-diagnostic", "an invalid statement is refused for another reason:" + errors(r) + c.where(d.text, i));
                    static std::set<code> const placed { code::table_not_found, code::table_already_exists, code::index_not_found, code::index_already_exists, code::column_not_found, code::column_already_exists, code::variable_not_found, code::symbol_not_found };
                    auto from = x.location().begin(), to = x.location().end();
                    if (placed.count(x.code()) != 0 && std::none_of(places.begin(), places.end(), [&](auto& p) { return p.first <= from && to <= p.second && from < to; }))
                        fail("wrong-place", "an invalid statement is refused at another place (" + std::to_string(from) + " to " + std::to_string(to) + "):" + errors(r) + c.where(show_marks(d.text, places), i));
                }
                continue;
            }
            if (!d.refused.empty()) { std::ostringstream l {}; for (auto x : d.refused) l << " " << x; fail("accepted", "an invalid statement is accepted, instead of" + l.str() + c.where(d.text, i)); }
            state expected {};
            for (int k = 0; k < 3; ++k) expected.tables[k] = c.db.tables[k];
            expected.grants = c.db.grants;
            if (d.apply) d.apply(expected);
            auto before = c.where(d.text, i);
            try {
                auto out = c.db.execute(r);
                if (out.kind != outcome::defined) fail("wrong-definition", "the statement defines nothing" + before);
            } catch (plan_error const& e) {
                fail("wrong-definition", "the statement cannot be executed: " + e.message + before);
            }
            auto x = describe(expected.tables, expected.grants), y = describe(c.db.tables, c.db.grants);
            if (x != y) fail("wrong-definition", "the definitions are wrong:" + difference(x, y) + before);
            c.db.start();
        }
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    auto& l = s.threads[0];
    l.push_back({ "schema", {}, { random_choices(r, static_cast<std::size_t>(r.range(60, 160))) } });
    auto n = r.range(6, thorough ? 30 : 18);
    for (long i = 0; i < n; ++i) {
        auto k = r.below(20);
        if (k == 0) { l.push_back({ "rows", {}, { random_choices(r, 120) } }); continue; }
        if (k == 1) { l.push_back({ "crash", {}, {} }); continue; }
        random_faults(r, s, static_cast<int>(l.size()));
        char const* kind = k <= 8 ? "create" : k <= 11 ? "alter" : k <= 13 ? "drop" : k == 14 ? "grant" : k <= 17 ? "insert" : "change";
        l.push_back({ kind, statement_options(r), { random_choices(r, static_cast<std::size_t>(r.range(10, 120))) } });
    }
}
bool needs(op const&) { return false; }

property const p { id, "", generate, execute, nullptr, needs, 12000, 400000,
    "A run makes a database of 1 to 4 tables and changes its definitions by 6 to 18 statements made from a seed together with their effect or the reason for which they are refused; each result is carried out in the durable definitions, which are compared with the stated ones, and the catalog is built again from them; rows are inserted, changed and deleted in the tables which result; in some calls memory runs out or the catalog throws, and the call is repeated." };
registrar const reg { &p };

} // namespace
} // namespace sim::sql
