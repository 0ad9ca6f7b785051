// What the histories of the simulated database have in common.
#pragma once
#include "model.h"

namespace sim::sql {

/// options of statements: as for "analyze", and
enum : int { q_depth = a_catalog + 1, q_last };

class session {
public:
    explicit session(scenario const& s) : s_ { s }, db { s.seed ^ 0x5eedU } {}
    scenario const& s_;
    database db;
    choices none { "" };

    /// tables and rows; the catalog is built
    void schema(std::string const& c, bool changes);
    void rows(std::string const& c);
    void host(std::string const& c);
    void crash();
    vocabulary words(op const& o);
    style how(op const& o);
    /// analyses a text, with the faults of the operation; repeats the call if it fails by one of them
    analyzer::sql_analyzer_result analyze(std::string const& text, op const& o, int index);
    std::string where(std::string const& text, int index) const;
private:
    analyzer::sql_analyzer analyzer_ {};
};

std::vector<long> statement_options(rt::prng& r);
void random_faults(rt::prng& r, scenario& s, int op);
std::string errors(analyzer::sql_analyzer_result const& r);

/// removes the marks (characters 1 and 2) of a text; the marked places
std::vector<std::pair<std::size_t, std::size_t>> unmark(std::string& text);
std::string show_marks(std::string text, std::vector<std::pair<std::size_t, std::size_t>> const& l);

} // namespace sim::sql
