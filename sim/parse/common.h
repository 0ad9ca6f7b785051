// Operations on the parser.
#pragma once
#include "../canon.h"
#include "../gen.h"

#include <mizugaki/parser/sql_parser.h>
#include <takatori/document/basic_document.h>

namespace sim {

namespace parser = ::mizugaki::parser;
using document_ptr = std::shared_ptr<::takatori::document::basic_document const>;

enum : int { p_node_limit, p_depth_limit, p_expected, p_description, p_first_element };  // indices of op::n
constexpr std::size_t element_kinds = static_cast<std::size_t>(parser::sql_parser_element_kind_last) + 1;

/// operation "parse": s = { text, location }, n = { node limit, depth limit, expected candidates, description comments, (kind, limit)... }
op make_parse(std::string text, std::vector<long> n = { 0, 0, 5, 1 });
void configure(parser::sql_parser_options& o, op const& p);
parser::sql_parser make_parser(op const& p);
document_ptr make_document(op const& p);

/// canonical form of the result; the message is left out when it may be damaged by a fault
std::string canon_absolute(parser::sql_parser_result const& r, bool message = true);
/// code and region only
std::string canon_brief(parser::sql_parser_result const& r);

/// parses with a fresh parser; out parts: full canonical form, brief form
void solo_parse(op const& o);

/// lexical structure of a text, determined independently of the scanner
struct lexed {
    struct item { std::size_t begin, end; char kind; };   // c: comment, s: string, i: word or delimited identifier, n: number, q: placeholder, p: other
    std::vector<item> items {};
    bool closed { true };                                // no unterminated string, comment
};
lexed lex(std::string_view s);

/// generic conditions on a result; empty if they hold
std::string check_result(parser::sql_parser_result const& r, std::string const& text, void const* document, bool descriptions);

/// SQL texts for parser runs: grammar sentences and statements from the pool
tokens random_tokens(rt::prng& r, std::size_t size);
std::string random_sql(rt::prng& r, std::size_t size);

} // namespace sim
