// A09: the receiver of a serialization, or the stream of a print, fails or calls back.
#include "ast_history.h"

#include <ios>
#include <new>
#include <ostream>
#include <streambuf>

namespace sim {
namespace {

constexpr char const* id = "A09";

/// accepts a number of characters, then fails
class short_buffer : public std::streambuf {
public:
    short_buffer(std::size_t limit, bool throws) : limit_ { limit }, throws_ { throws } {}
    std::string text {};
    bool failed { false };
protected:
    int_type overflow(int_type c) override {
        rt::disarmed d {};
        if (c == traits_type::eof()) return 0;
        if (text.size() >= limit_) { failed = true; if (throws_) throw injected_error("stream"); return traits_type::eof(); }
        text += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(char const* s, std::streamsize n) override {
        rt::disarmed d {};
        auto k = std::min<std::size_t>(static_cast<std::size_t>(n), limit_ - std::min(limit_, text.size()));
        text.append(s, k);
        if (k < static_cast<std::size_t>(n)) { failed = true; if (throws_) throw injected_error("stream"); }
        return static_cast<std::streamsize>(k);
    }
private:
    std::size_t limit_;
    bool throws_;
};

struct odd_error { int code; };   // not derived from std::exception

std::size_t const no_limit = static_cast<std::size_t>(-1) / 2;

std::string full_print(ast::compilation_unit const& u) {
    short_buffer b { no_limit, false };
    std::ostream o { &b };
    { rt::armed a {}; o << u; }
    return b.text;
}

void solo(op const& o) {
    std::string a {}, b {};
    u64 events = 0;
    rt::run_single([&] {
        auto u = parse_unit(o.str(0), false);
        if (!u) return;
        recorder r {};
        { rt::armed x {}; r << *u; }
        a = r.text;
        events = r.events;
        if (!r.problem.empty()) fail("unbalanced", r.problem + ": " + r.text.substr(0, 2000));
        if (!r.open.empty()) fail("unbalanced", "a structure was left open: " + r.text.substr(0, 2000));
        b = full_print(*u);
    }, 65536);
    rt::output(a + std::string { part_separator } + b);
    solo_events(events);
}

void execute_all(scenario const& s, expectations const& e) {
    for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
        auto&& o = s.threads[0][i];
        auto what = "\n  text: " + escape(o.str(0), 800);
        auto u = parse_unit(o.str(0), false);
        if (!u) continue;
        auto const& full = e[0][i].parts[o.kind == "print" ? 1 : 0];
        auto model = dump(*u, regions::absolute);
        auto start = rt::live_armed_blocks();
        auto* f = s.fault_of(0, static_cast<int>(i), o.kind == "print" ? "stream" : "acceptor");
        auto kind = f ? f->arg : 0;
        if (o.kind == "serialize") {
            recorder r {};
            if (f) r.fail_at = static_cast<u64>(f->at);
            auto* reenter = s.fault_of(0, static_cast<int>(i), "reentry");
            bool nested = false;
            std::string caught {};
            r.hook = [&] {
                if (f && r.events > r.fail_at && !r.failed) {
                    rt::count(c_fault_acceptor);
                    r.failed = true;
                    if (kind == 1) throw std::bad_alloc {};
                    if (kind == 2) throw odd_error { 77 };
                    throw injected_error("acceptor");
                }
                if (reenter && !nested && r.events == static_cast<u64>(reenter->at)) {
                    nested = true;
                    rt::count(c_fault_reentry);
                    recorder inner {};
                    unit_ptr copy {};
                    { rt::armed a {}; inner << *u; copy = std::make_unique<ast::compilation_unit>(::takatori::util::clone_tag, static_cast<ast::compilation_unit const&>(*u)); copy.reset(); }
                    expect_same("wrong-result", "a serialization within a serialization" + what, full, inner.text);
                }
            };
            try { rt::armed a {}; r << *u; }
            catch (injected_error const& x) { caught = std::string { "injected " } + x.what(); }
            catch (std::bad_alloc const&) { caught = "bad_alloc"; }
            catch (odd_error const& x) { caught = "odd " + std::to_string(x.code); }
            catch (std::exception const& x) { caught = std::string { "exception " } + x.what(); }
            if (r.failed) {
                char const* expected = kind == 1 ? "bad_alloc" : kind == 2 ? "odd 77" : "injected acceptor";
                if (caught != expected) fail("exception", std::string { "the receiver failed with \"" } + expected + "\" but the caller saw \"" + caught + "\"" + what);
                rt::count(c_threw);
            } else if (!caught.empty()) fail("exception", "a serialization failed although its receiver did not: " + caught + what);
            if (!r.open.empty()) fail("unbalanced", "structures were left open when the receiver failed: " + r.text.substr(0, 2000) + what);
            if (!r.problem.empty()) fail("unbalanced", r.problem + ": " + r.text.substr(0, 2000) + what);
            if (full.compare(0, r.text.size(), r.text) != 0 || (!r.failed && full != r.text)) expect_same("wrong-result", "what was serialized before the failure" + what, full, r.text);
        } else {
            short_buffer b { f ? static_cast<std::size_t>(f->at) : no_limit, kind == 1 || kind == 3 };
            std::ostream out { &b };
            if (kind >= 2) out.exceptions(std::ios::badbit | std::ios::failbit);
            std::string caught {};
            try { rt::armed a {}; out << *u; }
            catch (injected_error const& x) { caught = std::string { "injected " } + x.what(); }
            catch (std::ios_base::failure const&) { caught = "failure"; }
            catch (std::exception const& x) { caught = std::string { "exception " } + x.what(); }
            if (b.failed) {
                rt::count(c_fault_stream);
                if (out.good() && caught.empty()) fail("exception", "the stream failed, and nothing tells" + what);
                if (kind >= 2 && caught.empty()) fail("exception", "the stream failed, and the exception it is to throw was lost" + what);
            } else if (!caught.empty() || !out.good()) fail("exception", "printing failed although the stream did not: " + caught + what);
            if (full.compare(0, b.text.size(), b.text) != 0 || (!b.failed && full != b.text)) expect_same("wrong-result", "what was printed before the failure" + what, full, b.text);
        }
        expect_same("changed", "a tree during a failed serialization" + what, model, dump(*u, regions::absolute));
        recorder again {};
        { rt::armed a {}; again << *u; }
        expect_same("wrong-result", "a serialization after a failed one" + what, e[0][i].parts[0], again.text);
        expect_same("wrong-result", "printing after a failure" + what, e[0][i].parts[1], full_print(*u));
        rt::count(c_reused);
        rt::count(c_leak_checked);
        if (rt::live_armed_blocks() != start) fail("leak", "blocks remain allocated after a failed serialization" + what + "\n" + rt::describe_live(4));
    }
    rt::check_heap();
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] { execute_all(s, e); }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool) {
    random_heap(r, s);
    s.threads.resize(1);
    for (auto k = r.range(1, 3); k > 0; --k) {
        op o { r.chance(3, 4) ? "serialize" : "print", {}, { random_program(r, static_cast<std::size_t>(r.range(3, 60)), static_cast<std::size_t>(r.chance(1, 3) ? r.range(2, 3) : 1)) } };
        auto i = static_cast<int>(s.threads[0].size());
        auto&& m = orc.solo(id, o);
        if (m.events > 0 && o.kind == "serialize" && r.chance(9, 10)) s.faults.push_back({ 0, i, "acceptor", static_cast<long>(r.below(m.events)), 1, r.range(0, 2) });
        if (m.events > 0 && o.kind == "serialize" && r.chance(1, 4)) s.faults.push_back({ 0, i, "reentry", static_cast<long>(r.range(1, static_cast<long>(m.events))), 1, 0 });
        if (o.kind == "print" && m.parts.size() > 1 && !m.parts[1].empty()) s.faults.push_back({ 0, i, "stream", static_cast<long>(r.below(m.parts[1].size())), 1, r.range(0, 3) });
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const&) { return true; }

property const p { id, "", generate, execute, solo, needs, 4000, 400000,
    "A run serializes or prints 1 to 3 trees; the receiver throws at one of its events (three kinds of exception) or serializes again within one, the stream refuses or throws after some characters." };
registrar const reg { &p };

} // namespace
} // namespace sim
