// Changes of rows: statements, and what they do.
#pragma once
#include "session.h"

namespace sim::sql {

/// a change of one table: what its rows are afterwards
struct change {
    std::string text {};
    int schema { 0 };
    std::string table {};
    struct effect {
        bool failed { false };
        bool open { false };                    // not determined
        stored_table after {};
        std::vector<std::size_t> masked {};     // columns whose new values may be exchanged between rows
        bool conflict { false };
    };
    std::function<effect()> run {};
};

change make_insert(maker& m, choices& c, database* db, std::size_t depth);
change make_change(maker& m, choices& c, database* db, std::size_t depth);
/// executes a change and compares all tables
void perform(session& c, change const& x, analyzer::sql_analyzer_result const& r, int index);

} // namespace sim::sql
