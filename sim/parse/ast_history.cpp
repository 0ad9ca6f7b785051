#include "ast_history.h"

#include <sstream>

namespace sim {

unit_ptr parse_unit(std::string const& text, bool armed) {
    parser::sql_parser p {};
    std::optional<rt::armed> a {};
    if (armed) a.emplace();
    auto r = p("-", text);
    if (!r.has_value()) return {};
    return std::move(r.value());
}

std::string random_program(rt::prng& r, std::size_t size, std::size_t statements) {
    std::string out {};
    for (std::size_t i = 0; i < statements; ++i) {
        auto t = random_sql(r, size);
        if (i > 0) out += "; ";
        out += t;
    }
    return out;
}

form form_of(ast::compilation_unit const& u) {
    form f { dump(u, regions::none), dump(u, regions::absolute), dump(u, regions::properties) };   // serialized forms do not include the regions of nodes
    return f;
}

bool mutate_unit(ast::compilation_unit& u, u64 place, u64 salt) {
    auto n = u.statements().size();
    if (n > 1 && place % 16 == 0) {
        rt::armed a {};
        auto& v = u.statements();
        switch (salt % 3) {
            case 0: v.erase(v.begin() + static_cast<std::ptrdiff_t>(salt / 4 % n)); break;
            case 1: std::swap(v[salt / 4 % n], v[salt / 16 % n]); break;
            default: if (n < 8) v.push_back(::takatori::util::clone_unique(v[salt / 4 % n]));
        }
        return true;
    }
    if (n == 0) return false;
    auto& st = *u.statements()[place % n];
    if (count_nodes(st) > 300) return false;
    auto leaves = count_leaves(st);
    if (leaves == 0) return false;
    mutate(st, place / n % leaves, salt);
    return true;
}

std::vector<void const*> addresses(ast::compilation_unit const& u) {
    std::vector<void const*> out {};
    for (auto&& s : u.statements()) { auto v = addresses(*s); out.insert(out.end(), v.begin(), v.end()); }
    return out;
}

std::string print(ast::compilation_unit const& u) {
    std::ostringstream o {};
    rt::armed a {};
    o << u;
    return o.str();
}

} // namespace sim
