// A01: damaged, truncated and junk-injected input: the parser answers, and points at the fault.
#include "common.h"

#include <algorithm>

namespace sim {
namespace {

constexpr char const* id = "A01";

/// texts which no prefix of a sentence can be followed by
struct junk { char const* text; char const* code; };
junk const junks[] {
    { "$", "invalid_character" }, { "\\", "invalid_character" }, { "#", "invalid_character" }, { "@", "invalid_character" }, { "~", "invalid_character" }, { "`", "invalid_character" }, { "!", "invalid_character" },
    { "\x01", "invalid_character" }, { "\x7f", "invalid_character" }, { "\xc3\xa9", "invalid_character" }, { "\xe3\x81\x82", "invalid_character" }, { "\xf0\x9f\x98\x80", "invalid_character" },
    { "__x", "invalid_token" }, { "\"__y z\"", "invalid_token" }, { "__", "invalid_token" }, { "__SELECT", "invalid_token" },
    { "\xff", "invalid_character" }, { "\x80", "invalid_character" }, { "\xc0", "invalid_character" },
};

std::string canon_checked(op const& o, parser::sql_parser_result const& r, document_ptr const& doc) {
    auto p = check_result(r, o.str(0), doc.get(), o.num(p_description, 1) != 0);
    if (!p.empty()) fail("malformed-result", p + "\n  text: " + escape(o.str(0), 1200) + "\n  result: " + escape(canon_absolute(r), 1500));
    return {};
}

parser::sql_parser_result parse(op const& o, document_ptr const& doc) {
    auto p = make_parser(o);
    rt::armed a {};
    try { return p(doc); }
    catch (std::exception const& e) { rt::disarmed d {}; fail("exception", std::string { "the parser threw: " } + e.what() + "\n  text: " + escape(o.str(0), 1200)); }
    catch (...) { rt::disarmed d {}; fail("exception", "the parser threw a non-standard exception\n  text: " + escape(o.str(0), 1200)); }
}

ast::node_region region_of(parser::sql_parser_result const& r) { return ast::node_region { r.diagnostic().region() }; }

/// a diagnostic names the first fault: what precedes it is the beginning of a sentence, and what follows it does not matter
void check_first_fault(op const& o, parser::sql_parser_result const& r) {
    if (r.has_value()) return;
    // (others are raised by rules on what is a sentence otherwise)
    auto plain = [](parser::sql_parser_code c) { return c == parser::sql_parser_code::unexpected_token || c == parser::sql_parser_code::invalid_character || c == parser::sql_parser_code::invalid_token; };
    auto code = r.diagnostic().code();
    if (!plain(code)) return;
    auto g = region_of(r);
    auto where = "[" + std::to_string(g.begin) + "," + std::to_string(g.end) + ")";
    {
        auto q = o;
        q.s[0] = o.str(0).substr(0, g.begin);
        auto doc = make_document(q);
        auto x = parse(q, doc);
        canon_checked(q, x, doc);
        if (!x.has_value() && (plain(x.diagnostic().code()) || (x.diagnostic().code() == parser::sql_parser_code::unexpected_eof && region_of(x).begin != g.begin)))
            fail("location", "the first fault was reported at " + where + ", but the text before it is faulty by itself: " + escape(q.s[0], 1000) + "\n  " + canon_absolute(x) + "\n  " + canon_absolute(r));
    }
    static char const* const rests[] { "", " ", "\n)", " SELECT", " \x01 @", " /* " };
    for (auto i : { g.begin % std::size(rests), (g.begin + g.end) % std::size(rests) }) {
        auto q = o;
        q.s[0] = o.str(0).substr(0, g.end) + rests[i];
        auto doc = make_document(q);
        auto x = parse(q, doc);
        canon_checked(q, x, doc);
        if (x.has_value() || x.diagnostic().code() != code || region_of(x).begin != g.begin || region_of(x).end != g.end)
            fail("location", "the fault at " + where + " is reported differently when the text after it changes to " + escape(rests[i]) + ": " + escape(q.s[0], 1000) + "\n  " + canon_absolute(x) + "\n  " + canon_absolute(r));
    }
}

/// op "parse": the generic conditions. op "sentence": s = { text, location, token... } with n = { ..., junk index, position }:
/// the text is rebuilt from tokens so that the position of the fault is known.
void execute_one(op const& o) {
    if (o.kind == "parse") {
        auto doc = make_document(o);
        auto r = parse(o, doc);
        canon_checked(o, r, doc);
        check_first_fault(o, r);
        rt::count(r.has_value() ? c_parse_ok : c_parse_diag);
        return;
    }
    // "at": { junk, position, render seed, spacing, mode }, s = tokens
    auto n = o.s.size();
    if (n == 0) return;
    tokens all {};
    for (auto&& t : o.s) { auto one = split(t); all.push_back({ t, one.size() == 1 ? one[0].kind : 'x' }); }
    auto k = std::min<std::size_t>(static_cast<std::size_t>(o.num(1)), n);
    rt::prng r { static_cast<u64>(o.num(2)) };
    auto sp = static_cast<spacing>(o.num(3));
    // the undamaged sentence must be acceptable; otherwise nothing is known about the position
    {
        rt::prng q { static_cast<u64>(o.num(2)) };
        auto base = make_parse(render(all, sp, q).text);
        auto doc = make_document(base);
        auto res = parse(base, doc);
        canon_checked(base, res, doc);
        if (!res.has_value()) { rt::count(c_parse_diag); return; }
        rt::count(c_parse_ok);
    }
    if (o.num(4) == 0) {
        auto&& j = junks[static_cast<std::size_t>(o.num(0)) % std::size(junks)];
        auto t = all;
        t.insert(t.begin() + static_cast<std::ptrdiff_t>(k), token { j.text, 'x' });
        auto rd = render(t, sp, r);
        auto bad = make_parse(rd.text);
        auto doc = make_document(bad);
        auto res = parse(bad, doc);
        canon_checked(bad, res, doc);
        rt::count(c_fault_corrupt);
        auto want = ast::node_region { rd.at[k].first, rd.at[k].second };
        auto what = "an offending token " + escape(j.text) + " at [" + std::to_string(want.begin) + "," + std::to_string(want.end) + ") of " + escape(rd.text, 1000);
        if (res.has_value()) fail("accepted", what + " was accepted");
        auto got = region_of(res);
        if (got.begin != want.begin || got.end != want.end) fail("location", what + " was reported at [" + std::to_string(got.begin) + "," + std::to_string(got.end) + "): " + res.diagnostic().message());
        if (to_string_view(res.diagnostic().code()) != j.code) fail("code", what + " was reported as " + std::string { to_string_view(res.diagnostic().code()) });
    } else if (o.num(4) == 1) {
        // the input ends after k tokens
        tokens t { all.begin(), all.begin() + static_cast<std::ptrdiff_t>(k) };
        auto rd = render(t, sp, r);
        auto bad = make_parse(rd.text);
        auto doc = make_document(bad);
        auto res = parse(bad, doc);
        canon_checked(bad, res, doc);
        rt::count(c_fault_truncate);
        if (res.has_value()) return;
        auto got = region_of(res);
        if (res.diagnostic().code() != parser::sql_parser_code::unexpected_eof || got.begin != rd.text.size())
            fail("location", "the end of input in " + escape(rd.text, 1000) + " was reported as " + canon_absolute(res));
    } else {
        // the input ends inside of a token, or a part of it is lost: what precedes is still a viable prefix
        auto rd = render(all, sp, r);
        auto lo = k < n ? rd.at[k].first : rd.text.size();
        auto cut = std::min(rd.text.size(), lo + static_cast<std::size_t>(o.num(0)));
        std::size_t from = 0;      // start of the token which the cut damages
        for (auto&& x : rd.at) if (x.first <= cut) from = x.first;
        auto bad = make_parse(o.num(4) == 2 ? rd.text.substr(0, cut) : rd.text.substr(0, cut) + rd.text.substr(std::min(rd.text.size(), cut + 1 + static_cast<std::size_t>(o.num(0)) % 7)));
        auto doc = make_document(bad);
        auto res = parse(bad, doc);
        canon_checked(bad, res, doc);
        rt::count(o.num(4) == 2 ? c_fault_truncate : c_fault_corrupt);
        if (res.has_value()) return;
        auto got = region_of(res);
        check_first_fault(bad, res);
        auto code = res.diagnostic().code();
        bool semantic = code == parser::sql_parser_code::exceed_number_of_elements || code == parser::sql_parser_code::unsupported_feature;
        // the token in front of the cut can absorb what follows
        std::size_t floor = from;
        if (!semantic && sp != spacing::comments && got.begin + 0 < floor && floor > 0) {
            std::size_t prev = 0;
            for (auto&& x : rd.at) if (x.first < from) prev = x.first;
            if (got.begin < prev) fail("location", "text damaged at " + std::to_string(cut) + " was reported at " + std::to_string(got.begin) + ", before the damage: " + escape(bad.str(0), 1000) + "\n  " + canon_absolute(res));
        }
    }
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    for (auto k = r.range(2, thorough ? 6 : 4); k > 0; --k) {
        auto size = static_cast<std::size_t>(r.chance(1, 10) ? r.range(100, 400) : r.range(2, 60));
        if (r.chance(1, 3)) {
            bool cut = false;
            auto t = random_sql(r, size);
            if (r.chance(1, 8)) t = std::string(static_cast<std::size_t>(r.range(0, 20000)), ' ') + t;
            s.threads[0].push_back(make_parse(r.chance(1, 10) ? t : damage(r, std::move(t), cut), { 0, 0, r.range(0, 12), r.range(0, 1) }));
        } else {
            op o { "at", {}, {} };
            for (auto&& t : random_tokens(r, size)) o.s.push_back(t.text);
            o.n = { static_cast<long>(r.below(std::size(junks))), static_cast<long>(r.below(o.s.size() + 1)), static_cast<long>(r.below(1000000)), static_cast<long>(r.below(4)), static_cast<long>(r.below(4)) };
            s.threads[0].push_back(std::move(o));
        }
    }
}

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] { for (auto&& o : s.threads[0]) execute_one(o); }, 65536);
}
void solo(op const&) {}
bool needs(op const&) { return false; }

property const p { id, "", generate, execute, solo, needs, 4000, 400000,
    "A run feeds 2 to 6 texts to the parser: random sentences of the grammar (frozen copy, every production reachable) which are cut, overwritten, duplicated, bit-flipped, or which carry one offending token at a random position.", true, true };
registrar const reg { &p };

} // namespace
} // namespace sim
