// Scenarios, properties and the driver's interface.
#pragma once
#include "ascii.h"
#include "rt.h"

#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using rt::u64;

/// one call into the system under test (or one step of a history)
struct op {
    std::string kind {};
    std::vector<long> n {};
    std::vector<std::string> s {};
    [[nodiscard]] long num(std::size_t i, long d = 0) const { return i < n.size() ? n[i] : d; }
    [[nodiscard]] std::string const& str(std::size_t i) const { static std::string const e {}; return i < s.size() ? s[i] : e; }
};

/// an injected fault: bound to an operation of a thread
struct fault {
    int thread { 0 };
    int op { 0 };
    std::string kind {};   // alloc, catalog, acceptor, stream, ...
    long at { 0 };
    long len { 1 };
    long arg { 0 };
};

struct scenario {
    std::string prop {};
    u64 seed { 0 };
    std::map<std::string, long> cfg {};
    std::vector<std::vector<op>> threads {};
    std::vector<fault> faults {};
    std::vector<rt::switch_point> switches {};
    [[nodiscard]] long get(std::string const& k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    [[nodiscard]] std::vector<fault const*> faults_of(int t, int o) const;
    [[nodiscard]] fault const* fault_of(int t, int o, char const* kind) const;
};

std::string to_text(scenario const& s);
bool from_text(std::string const& text, scenario& out, std::string& error);
std::string escape(std::string_view s, std::size_t limit = static_cast<std::size_t>(-1));

/// what a solo, fault-free execution of one operation in a fresh process observed
struct measure {
    std::string out {};
    std::vector<std::string> parts {};   // out, split at the separators
    u64 allocs { 0 };
    u64 steps { 0 };
    u64 events { 0 };                    // callbacks (catalog lookups, serializer events, ...)
    std::vector<u64> points {};
    std::vector<u64> alloc_points {};
};

/// access to baselines while a scenario is made
class oracle {
public:
    virtual ~oracle() = default;
    /// solo execution of the operation (cached)
    virtual measure const& solo(std::string const& prop, op const& o) = 0;
};

using expectations = std::vector<std::vector<measure>>;

struct property {
    char const* id;
    char const* title;
    /// makes a scenario from the seed alone (and from measurements of its own operations)
    void (*generate)(rt::prng& r, scenario& s, oracle& o, bool thorough);
    /// executes the scenario in this process (a fresh child); reports by rt::violation
    void (*execute)(scenario const& s, expectations const& e);
    /// solo execution of one operation; output by rt::output, counts by solo_events
    void (*solo)(op const& o);
    /// whether the expectation of the operation is needed
    bool (*needs_solo)(op const& o);
    unsigned quick;     ///< runs in the quick tier
    unsigned thorough;
    char const* rule;
    bool shrink_text { true };   ///< whether the minimiser may cut pieces out of strings
    bool shrink_list { false };  ///< whether it may drop whole strings (tokens)
};

std::vector<property const*> const& properties();
void add_property(property const* p);
struct registrar { explicit registrar(property const* p) { add_property(p); } };

/// counters shared with the evidence
enum counter : int {
    c_fault_alloc, c_fault_catalog, c_fault_catalog_answer, c_fault_acceptor, c_fault_stream, c_fault_truncate, c_fault_corrupt, c_fault_reentry,
    c_preempt_in_call, c_overlap, c_rejected, c_parse_ok, c_parse_diag, c_analyze_plan, c_analyze_statement, c_analyze_diag, c_threw,
    c_compared, c_ast_nodes, c_cloned, c_mutated, c_equal_true, c_equal_false, c_events, c_locale, c_heap_reuse, c_lookups, c_fault_free_memory, c_limit_hit, c_limit_ok,
    c_shifted, c_reused, c_outlived, c_variables, c_nodes_checked, c_leak_checked, c_yields, c_fault_churn, c_fault_slow, c_fault_crash, c_too_large, c_rows, c_built, c_last
};
extern char const* const counter_names[];

/// applies the environment part of the configuration (locale, ...) inside the child
void apply_environment(scenario const& s);
rt::heap_config heap_of(scenario const& s);
void random_heap(rt::prng& r, scenario& s);

/// number of callbacks in a solo execution
void solo_events(u64 n);

/// chooses the points at which the scheduler switches, from the reference executions of all operations
void random_switches(rt::prng& r, scenario& s, oracle& orc, std::size_t most = 16);

[[noreturn]] void fail(char const* cls, std::string const& message);
/// reports the first difference of two canonical strings
void expect_same(char const* cls, std::string const& what, std::string const& expected, std::string const& actual);

/// part separator of solo outputs
constexpr char part_separator = '\x1e';

} // namespace sim
