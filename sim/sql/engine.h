// A simulated database around the compiler: durable definitions and rows, a catalog built from them,
// and an executor of the plans and statements which the compiler makes.
#pragma once
#include "../analyze/analyze.h"
#include "value.h"

#include <takatori/type/all.h>

namespace sim::sql {

enum class dflt { none, constant, function, sequence };
struct sequence_def { long initial { 1 }, increment { 1 }, min { 1 }, max { 9223372036854775807L }; bool cycle { false }; };
struct column_def {
    std::string name {};
    vtype type {};
    bool not_null { false };
    dflt d { dflt::none };
    value constant {};
    std::string function {};
    sequence_def seq {};
    bool hidden { false };
    bool synthesized { true };      ///< a hidden column is also one of the system
    bool read_only { false };
    std::string description {};
};
struct key_def { std::size_t column { 0 }; bool desc { false }; };
struct index_def { std::string name {}; std::vector<key_def> keys {}; std::string description {}; };
struct table_def { std::string name {}; std::vector<column_def> columns {}; std::vector<key_def> primary {}; std::vector<index_def> indices {}; std::string description {}; };
/// tables without a primary key have a hidden one; indices without a name get one
void complete(table_def& t);
std::string index_name(table_def const& t, std::string const& given);
std::string show(vtype const& t);
std::string show(table_def const& t);

struct stored_table {
    table_def def {};
    std::vector<row> rows {};
    std::map<std::size_t, long> next {};        // values of sequences
};

/// functions of the catalog: shared by the executor and the reference model
struct function_def { char const* name; vtype result; std::vector<vtype> parameters; value (*call)(row const&); int schema { 0 }; };
struct aggregate_def { char const* name; vtype result; std::vector<vtype> parameters; value (*call)(std::vector<row> const&); bool distinct { false }; };
struct tvf_def { char const* name; std::vector<std::pair<char const*, vtype>> result; std::vector<vtype> parameters; std::vector<row> (*call)(row const&); };
std::vector<function_def> const& functions();
std::vector<aggregate_def> const& aggregates();
std::vector<tvf_def> const& tvfs();

/// work of executions is bounded: queries whose answers take too long are not compared
struct too_large {};
extern long budget;
inline void spend(long n = 1) { if ((budget -= n) < 0) throw too_large {}; }

/// the plan cannot be executed
struct plan_error { std::string message; };

struct outcome {
    enum kind_t { none, rows, changed, defined, failed } kind { none };
    std::vector<std::string> names {};
    std::vector<row> result {};
    std::string message {};
};

class database {
public:
    explicit database(rt::u64 seed);
    /// durable
    std::map<std::string, stored_table> tables[3] {};
    std::vector<std::string> grants {};         // what was granted and revoked
    /// session
    std::map<std::string, value> variables {};

    /// builds the catalog from the durable state; plans which were made before keep the old objects
    void start();
    world& catalog() { return world_; }
    void declare(std::string const& name, vtype const& type);       // a host variable
    void declare_global(std::string const& name, vtype const& type);

    outcome execute(analyzer::sql_analyzer_result const& r);
    [[nodiscard]] std::string describe() const;
    rt::prng random;
    bool no_shuffle { false };
private:
    friend class executor;
    world world_ { false };
    std::map<void const*, std::pair<int, std::string>> by_table_ {};        // catalog object -> definition
    std::map<void const*, std::size_t> by_column_ {};
    std::vector<std::shared_ptr<void const>> keep_ {};
    std::map<std::string, vtype> host_ {}, global_ {};
};

std::shared_ptr<::takatori::type::data const> to_type(vtype const& t);
vtype from_type(::takatori::type::data const& t);
value from_value(::takatori::value::data const& v);
std::shared_ptr<::takatori::value::data const> to_value(value const& v, vtype const& t);

/// sets the rows after a change; false (and a message) if a constraint is broken
bool apply_insert(stored_table& t, std::vector<row> const& rows, int mode, std::string& message);     // mode 0: insert, 1: overwrite, 2: skip
bool apply_update(stored_table& t, std::vector<std::size_t> const& which, std::vector<row> const& rows, std::string& message);
void apply_delete(stored_table& t, std::vector<std::size_t> which);
value next_value(stored_table& t, std::size_t column);

} // namespace sim::sql
