// Canonical forms of syntax trees, plans and diagnostics, independent of the library's own ==, clone and serialize.
#pragma once
#include "core.h"

#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/ast/node.h>
#include <mizugaki/analyzer/sql_analyzer_result.h>
#include <mizugaki/parser/sql_parser_result.h>
#include <takatori/serializer/object_acceptor.h>

#include <functional>
#include <optional>
#include <stdexcept>

namespace sim {

namespace ast = ::mizugaki::ast;

enum class regions { none, absolute, tokens, properties };   // properties: those which are properties of a node, not its own place

/// token boundaries of a source text
struct token_map {
    std::vector<std::pair<std::size_t, std::size_t>> tokens {};  // begin, end
    std::size_t size { 0 };
    [[nodiscard]] std::string name(ast::node_region r) const;
};

std::string dump(ast::node const& n, regions mode, token_map const* map = nullptr);
std::string dump(ast::compilation_unit const& u, regions mode, token_map const* map = nullptr);

struct region_entry { ast::node_region region; std::string type; int parent; std::string text; bool is_node; };
/// every node and element with its region, parents first
std::vector<region_entry> collect_regions(ast::compilation_unit const& u);
/// number of nodes (not elements), and the greatest depth
std::size_t count_nodes(ast::node const& n);
/// nodes and depth by the reflected structure
std::pair<std::size_t, std::size_t> count_nodes(ast::compilation_unit const& u);

/// number of places where mutate() can change the value of a node
std::size_t count_leaves(ast::node const& n);
/// changes the k-th place; returns what was changed
std::string mutate(ast::node& n, std::size_t k, u64 salt);
/// changes the k-th region
bool mutate_region(ast::node& n, std::size_t k);

/// operations on a child held by a unique_ptr<E>
struct child_ops {
    char const* type;
    bool (*eq)(void*, void*);
    bool (*ne)(void*, void*);
    ast::node& (*node)(void*);
    void (*replace)(void* target, void* donor);   ///< target = clone of donor
};
/// every child of the tree which is held by a pointer (the address of the pointer)
std::vector<std::pair<void*, child_ops const*>> children(ast::node& n);

/// builds an object of the tree again, from copies of the values of its properties
struct build_ops {
    char const* type;
    std::size_t (*count)(void* object);                             ///< number of constructors which do so
    std::string (*build)(void* object, std::size_t constructor);    ///< calls one (armed); returns a problem, or nothing
};
/// every object of the tree which can be built again
std::vector<std::pair<void*, build_ops const*>> buildable(ast::node& n);

/// addresses of all nodes, elements and strings reachable from the node
std::vector<void const*> addresses(ast::node const& n);

/// thrown by simulated collaborators
struct injected_error : std::runtime_error { using runtime_error::runtime_error; };

/// records serializer events
class recorder : public ::takatori::serializer::object_acceptor {
public:
    std::string text {};
    std::vector<char> open {};
    u64 events { 0 };
    u64 fail_at { ~0ULL };   ///< fails at the first begin/value event with at least this number
    bool failed { false };
    std::string problem {};  ///< protocol violation
    std::function<void()> hook {};
    void boolean(bool v) override { value(v ? "true" : "false"); }
    void integer(std::int64_t v) override { value(std::to_string(v)); }
    void unsigned_integer(std::uint64_t v) override { value(std::to_string(v) + "u"); }
    void float_number(float v) override { value(std::to_string(v)); }
    void double_number(double v) override { value(std::to_string(v)); }
    void string(std::string_view v) override { value("'" + std::string { v } + "'"); }
    void pointer(void const*) override { value("ptr"); }
    void struct_begin() override { begin('{'); }
    void struct_end() override { end('{', '}'); }
    void property_begin(std::string_view name) override;
    void property_end() override;
    void array_begin() override { begin('['); }
    void array_end() override { end('[', ']'); }
private:
    bool fire();
    void value(std::string const& t);
    void begin(char c);
    void end(char o, char c);
    std::vector<u64> filled_ {};
    void fill();
};

std::string serialize(ast::node const& n);
std::string serialize(ast::compilation_unit const& n);

/// result of a parse
std::string canon(::mizugaki::parser::sql_parser_result const& r, regions mode, token_map const* map, bool message);
/// result of an analysis
std::string canon(::mizugaki::analyzer::sql_analyzer_result const& r, bool message = true);
/// with other names of regions
std::string canon_named(::mizugaki::analyzer::sql_analyzer_result const& r, std::function<std::string(::takatori::document::region const&)> const& namer, bool message);
/// checks that the result is well-formed; returns a problem or empty
std::string check_well_formed(::mizugaki::analyzer::sql_analyzer_result const& r, ::takatori::document::document const* doc);

} // namespace sim
