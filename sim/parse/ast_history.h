// Histories of operations on syntax trees.
#pragma once
#include "common.h"

#include <mizugaki/ast/compilation_unit.h>

namespace sim {

using unit_ptr = std::unique_ptr<ast::compilation_unit>;

/// parses a text which is expected to be accepted; null otherwise
unit_ptr parse_unit(std::string const& text, bool armed = true);
/// a text which the parser accepts, most of the time
std::string random_program(rt::prng& r, std::size_t size, std::size_t statements);
/// canonical form of a unit: values, and regions
struct form { std::string value {}; std::string full {}; std::string printed {}; bool operator==(form const& o) const { return full == o.full; } };
form form_of(ast::compilation_unit const& u);
/// changes one place of the unit; false if there is none
bool mutate_unit(ast::compilation_unit& u, u64 place, u64 salt);
std::vector<void const*> addresses(ast::compilation_unit const& u);
std::string print(ast::compilation_unit const& u);

} // namespace sim
