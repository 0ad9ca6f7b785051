// Reads a text along its syntax tree: every token must be accounted for by the part of the tree that states it.
#pragma once
#include "../canon.h"
#include "../gen.h"

namespace sim {

/// what is wrong with the tree as a reading of the tokens; empty if nothing is
std::string read_along(ast::compilation_unit const& u, rendered const& text);

} // namespace sim
