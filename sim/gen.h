// Input generation: sentences of the (frozen) grammar, lexical variety, damage.
#pragma once
#include "ascii.h"
#include "core.h"

namespace sim {

struct token {
    std::string text {};
    char kind { 'k' };   // k: keyword, p: punctuation, i: identifier, n: number, s: string, x: other
};
using tokens = std::vector<token>;

/// a random sentence; size is a rough bound of the number of tokens
tokens random_sentence(rt::prng& r, std::size_t size, char const* start = "program");
/// tokens of plain SQL text (harness lexer, used for hand-written statements)
tokens split(std::string_view sql);

enum class spacing { single, tight, wild, comments };
struct rendered { std::string text {}; std::vector<std::pair<std::size_t, std::size_t>> at {}; };
rendered render(tokens const& t, spacing s, rt::prng& r, std::string const& prefix = {});

/// a random lexeme
token random_identifier(rt::prng& r);
/// damages a text; says how
std::string damage(rt::prng& r, std::string text, bool& truncated);

} // namespace sim
