// Operations on the analyzer, and the catalog it is used with.
#pragma once
#include "../canon.h"
#include "../gen.h"

#include <mizugaki/analyzer/sql_analyzer.h>
#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/placeholder_map.h>
#include <takatori/document/basic_document.h>
#include <yugawara/catalog_all.h>

#include <map>
#include <vector>

namespace sim {

namespace analyzer = ::mizugaki::analyzer;

/// what a lookup in the catalog may do instead of answering
enum class lookup_action { none, throw_injected, throw_bad_alloc, throw_runtime, throw_odd, answer_nothing, answer_other, answer_old, call };

/// thrown by a catalog: not derived from std::exception
struct odd_error { long id; };

/// what the current thread does at its next lookups;
/// exceptions and calls happen at the at-th lookup, answers concern all lookups of the at-th distinct object (a catalog which is stable but different)
struct lookup_plan {
    struct entry { long at; long len; lookup_action action; std::function<void()> call {}; };
    std::vector<entry> entries {};
    u64 seen { 0 };            // lookups of the current operation
    u64 fired { 0 };
    std::vector<std::string> keys {};      // distinct objects which were looked up
    std::string log {};        // kinds and names which were looked up
    bool keep_log { false };
    u64 first_at { 0 }, last_at { 0 };      // when the catalog was consulted
};
lookup_plan& lookups();        // of the current thread

struct content_state;
class world {
public:
    explicit world(bool sample = true);
    ~world();
    world(world const&) = delete;
    world& operator=(world const&) = delete;
    /// replaces every object in the catalog by a new one; the old ones are destroyed unless somebody holds them
    /// kind 0: equal definitions, 1: other definitions, 2: nothing at all
    void ddl(int kind);
    /// drops single objects
    void drop_relation(std::string const& name);
    /// rebuilds the catalog: kind + 4 * set of dropped relations + 128 * changes of single objects
    /// in place: only the single objects change
    void become(long state, bool in_place = false);
    /// the order in which overloads of functions are told (0: that of their definition)
    void arrange(u64 seed);
    /// everything which can be seen from outside
    [[nodiscard]] std::string describe() const;
    [[nodiscard]] std::string describe_parameters() const;

    std::shared_ptr<::yugawara::schema::catalog> catalog {};
    std::shared_ptr<::yugawara::schema::declaration> first {}, second {}, third {};
    std::shared_ptr<::yugawara::variable::provider> parameters {};
    ::mizugaki::placeholder_map placeholders {};
    class content;
    /// replaces everything in the catalog
    void install(std::unique_ptr<content_state> next);
    [[nodiscard]] ::yugawara::storage::provider const& provider(std::size_t schema) const;
private:
    std::shared_ptr<content> content_;
    std::unique_ptr<content_state> complete_;    // before single objects were changed
};

struct storage_state {
    std::map<std::string, std::shared_ptr<::yugawara::storage::relation>, std::less<>> relations {};
    std::map<std::string, std::shared_ptr<::yugawara::storage::index const>, std::less<>> indices {};
    std::map<std::string, std::shared_ptr<::yugawara::storage::sequence const>, std::less<>> sequences {};
    std::shared_ptr<::yugawara::storage::relation> other_relation {};     // answers of a catalog gone wrong
    std::shared_ptr<::yugawara::storage::index const> other_index {};
};
struct content_state {
    storage_state storage[3] {};
    std::map<std::string, std::shared_ptr<::yugawara::variable::declaration const>, std::less<>> variables {};
    std::vector<std::shared_ptr<::yugawara::function::declaration const>> functions[2] {};
    std::vector<std::shared_ptr<::yugawara::aggregate::declaration const>> aggregates {};
    std::map<std::string, std::shared_ptr<::yugawara::variable::declaration const>, std::less<>> parameters {};
};
class world::content {
public:
    using storage_state = ::sim::storage_state;
    using state = content_state;
    std::unique_ptr<state> now {};

    void fill(int kind, ::yugawara::storage::provider const* const* owners);
};

/// operation "analyze": s = { text, text analysed by a re-entrant lookup... }
enum : int { a_flags, a_decimal, a_path, a_source, a_parameters, a_sequence, a_precision, a_statement, a_catalog };   // a_catalog: what the catalog contains
enum : long {   // bits of n[a_flags]
    af_lower = 1, af_lower_variable = 2, af_lower_function = 4, af_lower_relation = 8, af_lower_schema = 16, af_lower_catalog = 32, af_null = 64, af_write = 128,
    af_colon = 256, af_small_integer = 512, af_small_character = 1024, af_small_binary = 2048, af_small_decimal = 4096, af_validate = 8192, af_cast = 16384, af_cycle = 32768
};
op make_analyze(std::string text, std::vector<long> n);
std::vector<long> random_options(rt::prng& r);
analyzer::sql_analyzer_options make_options(world const& w, op const& o);
std::string describe(analyzer::sql_analyzer_options const& o);

/// a text, parsed; unit is empty if it has no statement
struct source {
    std::shared_ptr<::takatori::document::basic_document const> document {};
    std::optional<ast::compilation_unit> unit {};
    ast::statement::statement const* statement { nullptr };
};
/// not armed
source parse_source(op const& o);
/// the call itself; in the state of the caller
analyzer::sql_analyzer_result call(analyzer::sql_analyzer& a, analyzer::sql_analyzer_options const& options, source const& s, world const& w, op const& o);

/// full canonical form
std::string canon_full(analyzer::sql_analyzer_result const& r);
/// without messages, which may be cut when memory runs out (streams swallow the exception)
std::string canon_brief(analyzer::sql_analyzer_result const& r);
void count_result(analyzer::sql_analyzer_result const& r);

/// the operation alone; parts: canonical form, canonical form without messages ("" without a statement)
void solo_analyze(op const& o);
inline bool parses(measure const& m) { return !m.parts.empty() && !m.parts[0].empty(); }

/// installs the faults of an operation for the current thread
struct installed_faults { rt::alloc_fault alloc {}; bool catalog { false }; bool answers { false }; lookup_action first { lookup_action::none }; };
installed_faults install_faults(scenario const& s, int thread, int op);
void remove_faults();

/// statements about the sample catalog
std::string random_statement(rt::prng& r, std::size_t size);
op random_analyze(rt::prng& r, std::size_t size);
/// one which parses, and (mostly) one which is accepted
op parsed_analyze(rt::prng& r, oracle& orc, char const* prop, std::size_t size);

/// description used in reports
std::string where(op const& o);

} // namespace sim
