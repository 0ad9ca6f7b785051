// Driver: seeds -> scenarios -> simulated runs; minimisation, replay files, evidence.
#include "core.h"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include "clocale_sim.h"
#include <locale>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace rt { unsigned char* coverage_map(); }

namespace sim {

char const* const counter_names[] = {
    "alloc-failure", "catalog-exception", "catalog-wrong-answer", "acceptor-exception", "stream-failure", "truncated-input", "corrupted-input", "re-entrant-call",
    "preempted-inside-call", "overlapping-calls", "rejected-calls", "parsed-ok", "parse-diagnostics", "plans", "statements", "analysis-diagnostics", "threw",
    "comparisons", "ast-nodes", "clones", "mutations", "equal-pairs", "unequal-pairs", "serializer-events", "hostile-locale", "heap-reuse", "catalog-lookups", "freed-inputs", "limit-exceeded", "limit-satisfied",
    "shifted-inputs", "reused-objects", "outlived", "variables-checked", "plan-nodes-checked", "leak-checks", "yields-in-callback", "catalog-churn", "slow-catalog", "database-crash", "answers-too-large", "rows-compared", "constructions", ""
};

std::vector<fault const*> scenario::faults_of(int t, int o) const { std::vector<fault const*> r {}; for (auto&& f : faults) if (f.thread == t && f.op == o) r.push_back(&f); return r; }
fault const* scenario::fault_of(int t, int o, char const* kind) const { for (auto&& f : faults) if (f.thread == t && f.op == o && f.kind == kind) return &f; return nullptr; }

std::string escape(std::string_view s, std::size_t limit) {
    std::string r {};
    for (std::size_t i = 0; i < s.size() && i < limit; ++i) {
        auto c = static_cast<unsigned char>(s[i]);
        if (c == '\\' || c == '"') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += static_cast<char>(c);
    }
    if (s.size() > limit) r += "...";
    return r;
}
static bool unescape(std::istream& in, std::string& out) {
    out.clear();
    int c = in.get();
    if (c != '"') return false;
    while ((c = in.get()) != EOF) {
        if (c == '"') return true;
        if (c != '\\') { out += static_cast<char>(c); continue; }
        c = in.get();
        if (c == 'n') out += '\n';
        else if (c == 'x') { char b[3] {}; b[0] = static_cast<char>(in.get()); b[1] = static_cast<char>(in.get()); out += static_cast<char>(strtol(b, nullptr, 16)); }
        else out += static_cast<char>(c);
    }
    return false;
}

std::string to_text(scenario const& s) {
    std::ostringstream o {};
    o << "property " << s.prop << "\nseed " << s.seed << "\n";
    for (auto&& [k, v] : s.cfg) o << "cfg " << k << " " << v << "\n";
    for (auto&& t : s.threads) {
        o << "thread\n";
        for (auto&& p : t) {
            o << "op " << p.kind << " " << p.n.size();
            for (auto v : p.n) o << " " << v;
            o << " " << p.s.size();
            for (auto&& x : p.s) o << " \"" << escape(x) << "\"";
            o << "\n";
        }
    }
    for (auto&& f : s.faults) o << "fault " << f.thread << " " << f.op << " " << f.kind << " " << f.at << " " << f.len << " " << f.arg << "\n";
    for (auto&& w : s.switches) o << "switch " << w.thread << " " << w.step << " " << w.pick << "\n";
    o << "end\n";
    return o.str();
}
bool from_text(std::string const& text, scenario& s, std::string& err) {
    std::istringstream all { text };
    std::string line {};
    s = {};
    while (std::getline(all, line)) {
        std::istringstream in { line };
        std::string k {};
        in >> k;
        if (k.empty() || k[0] == '#') continue;
        if (k == "end") return true;
        if (k == "property") in >> s.prop;
        else if (k == "seed") in >> s.seed;
        else if (k == "cfg") { std::string n; long v = 0; in >> n >> v; s.cfg[n] = v; }
        else if (k == "thread") s.threads.emplace_back();
        else if (k == "op") {
            op p {};
            std::size_t n = 0;
            in >> p.kind >> n;
            for (std::size_t i = 0; i < n; ++i) { long v = 0; in >> v; p.n.push_back(v); }
            in >> n;
            for (std::size_t i = 0; i < n; ++i) { in.get(); std::string v; if (!unescape(in, v)) { err = "bad string: " + line; return false; } p.s.push_back(v); }
            if (s.threads.empty()) s.threads.emplace_back();
            s.threads.back().push_back(std::move(p));
        } else if (k == "fault") { fault f {}; in >> f.thread >> f.op >> f.kind >> f.at >> f.len >> f.arg; s.faults.push_back(f); }
        else if (k == "switch") { rt::switch_point w {}; in >> w.thread >> w.step >> w.pick; s.switches.push_back(w); }
        else { err = "unknown line: " + line; return false; }
    }
    err = "truncated file";
    return false;
}

static std::vector<property const*>& props() { static std::vector<property const*> v {}; return v; }
std::vector<property const*> const& properties() { return props(); }
void add_property(property const* p) { props().push_back(p); }
static property const* find_property(std::string const& id) { for (auto* p : props()) if (id == p->id) return p; return nullptr; }

void fail(char const* cls, std::string const& message) { rt::violation(cls, message); }
void expect_same(char const* cls, std::string const& what, std::string const& expected, std::string const& actual) {
    rt::count(c_compared);
    if (expected == actual) return;
    std::size_t i = 0;
    while (i < expected.size() && i < actual.size() && expected[i] == actual[i]) ++i;
    std::size_t from = i > 120 ? i - 120 : 0;
    fail(cls, what + "\n  expected: ..." + escape(std::string_view { expected }.substr(from), 400) + "\n  actual:   ..." + escape(std::string_view { actual }.substr(from), 400));
}

struct hostile_punct : std::numpunct<char> {
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
    char do_decimal_point() const override { return ';'; }
    std::string do_truename() const override { return "yes"; }
    std::string do_falsename() const override { return "no"; }
};
struct hostile_letters : std::ctype<char> {        // as in Turkish: I is not the capital letter of i
    char do_tolower(char c) const override { return c == 'I' ? c : std::ctype<char>::do_tolower(c); }
    char do_toupper(char c) const override { return c == 'i' ? c : std::ctype<char>::do_toupper(c); }
    char const* do_tolower(char* b, char const* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    char const* do_toupper(char* b, char const* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
};
void apply_environment(scenario const& s) {
    if (s.get("locale") != 0) {
        std::locale::global(std::locale { std::locale { std::locale::classic(), new hostile_punct {} }, new hostile_letters {} });
        rt::hostile_locale = true;
        {   // what the locale remembers about its rules is no part of what a run allocates
            std::ostringstream o {};
            o << 1UL << true << 1.5;
            std::istringstream in { "1 1" };
            unsigned long u {};
            double d {};
            in >> u >> d;
        }
        rt::count(c_locale);
    }
    if (s.get("errno") != 0) errno = static_cast<int>(s.get("errno"));
    if (s.get("reuse") != 0) rt::count(c_heap_reuse);
}
rt::heap_config heap_of(scenario const& s) {
    rt::heap_config h {};
    h.reuse = static_cast<int>(s.get("reuse"));
    h.layout = static_cast<int>(s.get("layout"));
    h.fill = static_cast<rt::u8>(s.get("fill", 0xCD));
    h.seed = static_cast<u64>(s.get("heapseed", 1));
    return h;
}
void random_heap(rt::prng& r, scenario& s) {
    s.cfg["reuse"] = r.range(0, 2);
    s.cfg["layout"] = r.range(0, 2);
    static long const fills[] { 0xCD, 0, 0xFF, 1, 0xDB };
    s.cfg["fill"] = fills[r.below(5)];
    s.cfg["heapseed"] = static_cast<long>(r.below(1000000));
}

// ---------------------------------------------------------------- runs

struct outcome {
    bool violation { false };
    std::string cls {}, msg {};
    std::vector<void*> frames {};
    u64 hash { 0 }, switch_hash { 0 }, steps { 0 }, switches { 0 }, allocs { 0 }, alloc_faults { 0 };
    std::vector<u64> counters {};
    std::string out {};
};

template<class F> outcome in_child(rt::heap_config const& h, F&& f) {
    rt::rep->status = 0; rt::rep->violation = 0; rt::rep->out_size = 0; rt::rep->nframes = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(99); }
    if (p == 0) {
        rt::begin_child(h);
        f();
        rt::end_child();
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    outcome o {};
    auto* r = rt::rep;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { std::cerr << "simulator error\n"; _exit(99); }
    if (r->status != 1) {
        o.violation = true;
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        o.cls = hang ? "hang" : "crash";
        o.msg = hang ? "the call does not terminate" : "the process ended unexpectedly, status " + std::to_string(st);
        return o;
    }
    o.violation = r->violation != 0;
    if (o.violation) { o.cls = r->cls; o.msg = r->msg; o.frames.assign(r->frames, r->frames + r->nframes); }
    o.hash = r->hash; o.switch_hash = r->switch_hash; o.steps = r->steps; o.switches = r->switches; o.allocs = r->allocs; o.alloc_faults = r->alloc_faults;
    o.counters.assign(r->counters, r->counters + c_last);
    o.out.assign(r->out, r->out_size);
    return o;
}

struct baseline_failure { outcome o; scenario s; };

static u64 solo_event_count = 0;
void solo_events(u64 n) { rt::rep->counters[60] = n; }

class oracle_impl : public oracle {
public:
    u64 runs { 0 };
    measure const& solo(std::string const& prop, op const& o) override {
        std::string key = prop + "\n" + o.kind;
        for (auto v : o.n) key += " " + std::to_string(v);
        for (auto&& x : o.s) { key += '\x1f'; key += x; }
        auto i = cache_.find(key);
        if (i != cache_.end()) return i->second;
        if (cache_.size() > 4000) cache_.clear();
        auto* p = find_property(prop);
        ++runs;
        std::string tail {};
        auto r = in_child(rt::heap_config {}, [&] {
            rt::record_points(true);
            p->solo(o);
            rt::record_points(false);
            auto pts = rt::recorded_points(runs), al = rt::recorded_allocs(runs);
            auto pos = rt::rep->out_size;
            rt::output(std::string { reinterpret_cast<char const*>(pts.data()), pts.size() * 8 });
            rt::output(std::string { reinterpret_cast<char const*>(al.data()), al.size() * 8 });
            rt::rep->counters[61] = pts.size(); rt::rep->counters[62] = al.size(); rt::rep->counters[63] = pos;
        });
        if (r.violation) {
            baseline_failure f { r, {} };
            f.s.prop = prop; f.s.threads = { { o } }; f.s.cfg["solo"] = 1;
            throw f;
        }
        measure m {};
        u64 np = rt::rep->counters[61], na = rt::rep->counters[62], pos = rt::rep->counters[63];
        m.events = rt::rep->counters[60];
        m.out = r.out.substr(0, pos);
        m.points.resize(np); std::memcpy(m.points.data(), r.out.data() + pos, np * 8);
        m.alloc_points.resize(na); std::memcpy(m.alloc_points.data(), r.out.data() + pos + np * 8, na * 8);
        std::sort(m.points.begin(), m.points.end());
        std::sort(m.alloc_points.begin(), m.alloc_points.end());
        m.allocs = r.allocs; m.steps = r.steps;
        std::size_t b = 0;
        for (std::size_t e; (e = m.out.find(part_separator, b)) != std::string::npos; b = e + 1) m.parts.push_back(m.out.substr(b, e - b));
        m.parts.push_back(m.out.substr(b));
        return cache_.emplace(std::move(key), std::move(m)).first->second;
    }
private:
    std::unordered_map<std::string, measure> cache_ {};
};

static outcome run(scenario const& s, oracle_impl& orc) {
    auto* p = find_property(s.prop);
    try {
        if (s.get("solo") != 0) { for (auto&& o : s.threads.at(0)) orc.solo(s.prop, o); return {}; }
        expectations e {};
        for (auto&& t : s.threads) {
            e.emplace_back();
            for (auto&& o : t) { if (p->needs_solo && p->needs_solo(o)) e.back().push_back(orc.solo(s.prop, o)); else e.back().emplace_back(); }
        }
        return in_child(heap_of(s), [&] { p->execute(s, e); });
    } catch (baseline_failure const& f) {
        return f.o;
    }
}

static double wall() { timespec t {}; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }

/// what identifies a violation while it is being minimised
static std::string signature(outcome const& o) { return o.cls; }

struct known_finding { std::string prop, cls, match, text; };
static std::string trace_of(outcome const& o) { return o.msg + "\n" + rt::symbolize(o.frames.data(), static_cast<int>(o.frames.size()), 24); }
static bool is_known(std::vector<known_finding> const& known, std::string const& prop, outcome const& o) {
    std::string trace {};
    for (auto&& k : known) if (k.prop == prop && k.cls == o.cls) {
        if (trace.empty()) trace = trace_of(o);
        if (trace.find(k.match) != std::string::npos) return true;
    }
    return false;
}

static scenario minimise(scenario s, outcome const& first, oracle_impl& orc, std::vector<known_finding> const& known, double seconds, unsigned& tried) {
    double until = wall() + seconds;
    auto sig = signature(first);
    auto bad = [&](scenario const& c) { if (wall() > until) return false; ++tried; auto o = run(c, orc); return o.violation && signature(o) == sig && !is_known(known, c.prop, o); };
    bool progress = true;
    while (progress && wall() < until) {
        progress = false;
        // switch points: halves, then single ones
        for (std::size_t n = std::max<std::size_t>(s.switches.size() / 2, 1); n >= 1 && !s.switches.empty(); n /= 2) {
            for (std::size_t i = 0; i < s.switches.size();) {
                auto c = s;
                c.switches.erase(c.switches.begin() + static_cast<std::ptrdiff_t>(i), c.switches.begin() + static_cast<std::ptrdiff_t>(std::min(i + n, s.switches.size())));
                if (bad(c)) { s = std::move(c); progress = true; } else i += n;
            }
        }
        for (std::size_t i = 0; i < s.faults.size();) {
            auto c = s;
            c.faults.erase(c.faults.begin() + static_cast<std::ptrdiff_t>(i));
            if (bad(c)) { s = std::move(c); progress = true; } else ++i;
        }
        for (std::size_t t = s.threads.size(); t-- > 0;) {
            for (std::size_t i = s.threads[t].size(); i-- > 0;) {
                auto c = s;
                c.threads[t].erase(c.threads[t].begin() + static_cast<std::ptrdiff_t>(i));
                for (auto f = c.faults.begin(); f != c.faults.end();) {
                    if (f->thread == static_cast<int>(t) && f->op == static_cast<int>(i)) { f = c.faults.erase(f); continue; }
                    if (f->thread == static_cast<int>(t) && f->op > static_cast<int>(i)) --f->op;
                    ++f;
                }
                if (bad(c)) { s = std::move(c); progress = true; }
            }
        }
        for (auto&& [k, v] : std::map<std::string, long> { s.cfg }) {
            if (k == "threads" || k == "solo" || v == 0) continue;
            auto c = s;
            c.cfg.erase(k);
            if (bad(c)) { s = std::move(c); progress = true; }
        }
        for (std::size_t i = 0; i < s.faults.size(); ++i) if (s.faults[i].len > 1) { auto c = s; c.faults[i].len = 1; if (bad(c)) { s = std::move(c); progress = true; } }
        auto* pr = find_property(s.prop);
        if (pr->shrink_list) {
            for (auto&& t : s.threads) for (auto&& o : t) {
                for (std::size_t n = std::max<std::size_t>(o.s.size() / 2, 1); n >= 1 && wall() < until; n /= 2) {
                    for (std::size_t i = 0; i + n <= o.s.size() && wall() < until;) {
                        auto keep = o.s;
                        o.s.erase(o.s.begin() + static_cast<std::ptrdiff_t>(i), o.s.begin() + static_cast<std::ptrdiff_t>(i + n));
                        auto c = s;
                        if (bad(c)) { progress = true; } else { o.s = keep; i += n; }
                    }
                }
            }
        }
        // texts: drop pieces
        if (pr->shrink_text) for (auto&& t : s.threads) for (auto&& o : t) for (std::size_t k = 0; k < o.s.size(); ++k) {
            for (std::size_t n = o.s[k].size() / 2; n >= 1 && wall() < until; n /= 2) {
                for (std::size_t i = 0; i + n <= o.s[k].size() && wall() < until;) {
                    auto keep = o.s[k];
                    o.s[k].erase(i, n);
                    auto c = s; // o refers into s
                    if (bad(c)) { progress = true; } else { o.s[k] = keep; i += n; }
                }
            }
        }
    }
    return s;
}

struct shared { volatile int stop; volatile u64 next; };

static std::string replay_text(scenario const& s, outcome const& o) {
    std::ostringstream r {};
    r << "# simulated run which violates " << s.prop << "; replay with: ./dsim replay <this file>\n# class " << o.cls << "\n";
    std::istringstream m { o.msg };
    std::string l {};
    while (std::getline(m, l)) r << "#   " << l.substr(0, 2000) << "\n";
    std::istringstream f { rt::symbolize(o.frames.data(), static_cast<int>(o.frames.size()), 24) };
    while (std::getline(f, l)) r << "#" << l << "\n";
    char b[32]; snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(o.hash));
    r << "# execution " << b << " steps " << o.steps << "\n" << to_text(s);
    return r.str();
}

static std::string slurp(std::string const& p) { std::ifstream f { p, std::ios::binary }; std::ostringstream o {}; o << f.rdbuf(); return o.str(); }
static std::string json(std::string const& s) {
    std::string r = "\"";
    for (char ch : s) { auto c = static_cast<unsigned char>(ch); if (c == '"' || c == '\\') { r += '\\'; r += ch; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += ch; }
    return r + "\"";
}

struct totals {
    u64 runs { 0 }, solo { 0 }, steps { 0 }, switches { 0 }, allocs { 0 }, alloc_faults { 0 }, known { 0 }, unreproducible { 0 };
    std::vector<u64> counters = std::vector<u64>(c_last, 0);
    std::unordered_set<u64> execs {}, inter {}, cases {};
    std::vector<std::string> samples {};
};

static std::vector<known_finding> load_known(std::string const& path) {
    // finding<TAB>property<TAB>class<TAB>substring of the trace<TAB>description
    std::vector<known_finding> r {};
    std::ifstream f { path };
    std::string l {};
    while (std::getline(f, l)) {
        if (l.rfind("finding\t", 0) != 0) continue;
        std::vector<std::string> p {}; std::istringstream in { l }; std::string x {};
        while (std::getline(in, x, '\t')) p.push_back(x);
        if (p.size() >= 5) r.push_back({ p[1], p[2], p[3], p[4] });
    }
    return r;
}

static void worker(int w, int nw, property const* p, u64 seed, u64 runs, double deadline, bool thorough, std::string const& dir, shared* sh, std::vector<known_finding> const& known) {
    oracle_impl orc {};
    totals t {};
    bool solo_alarm = false;
    for (u64 i = static_cast<u64>(w); i < runs && !sh->stop && wall() < deadline; i += static_cast<u64>(nw)) {
        scenario s {};
        s.prop = p->id;
        s.seed = seed * 1000003ULL + i;
        rt::prng r { s.seed ^ 0x5EEDC0DEULL ^ (static_cast<u64>(p->id[0]) << 40U) ^ (static_cast<u64>(p->id[1]) << 48U) ^ (static_cast<u64>(p->id[2]) << 56U) };
        outcome o {};
        try {
            p->generate(r, s, orc, thorough);
            o = run(s, orc);
        } catch (baseline_failure const& f) {
            s = f.s; s.seed = seed * 1000003ULL + i; o = f.o;
            (void) solo_alarm;
        }
        ++t.runs;
        t.steps += o.steps; t.switches += o.switches; t.allocs += o.allocs; t.alloc_faults += o.alloc_faults;
        for (std::size_t k = 0; k < o.counters.size(); ++k) t.counters[k] += o.counters[k];
        if (t.execs.size() < 400000) t.execs.insert(o.hash);
        if (o.switches > 0 && t.inter.size() < 400000) t.inter.insert(o.switch_hash);
        if (t.samples.size() < 2 && i >= 8) { t.samples.push_back(to_text(s).substr(0, 1500)); }
        if (!o.violation) continue;
        // the same seed must give the same violation
        auto o2 = run(s, orc);
        if (!o2.violation || o2.cls != o.cls) { ++t.unreproducible; std::ofstream { dir + "/unreproducible." + std::to_string(w) + "." + std::to_string(i) } << replay_text(s, o); continue; }
        if (is_known(known, p->id, o)) { ++t.known; continue; }
        if (__sync_lock_test_and_set(&sh->stop, 1) != 0) break; // somebody else reports
        unsigned tried = 0;
        auto m = minimise(s, o, orc, known, 25, tried);
        oracle_impl fresh {};
        auto om = run(m, fresh);
        if (!om.violation) { m = s; om = o; }
        std::ofstream { dir + "/violation" } << replay_text(m, om);
        std::ofstream { dir + "/violation.original" } << replay_text(s, o);
        break;
    }
    t.solo = orc.runs;
    std::ofstream f { dir + "/worker." + std::to_string(w), std::ios::binary };
    f << t.runs << ' ' << t.solo << ' ' << t.steps << ' ' << t.switches << ' ' << t.allocs << ' ' << t.alloc_faults << ' ' << t.known << ' ' << t.unreproducible << '\n';
    for (auto c : t.counters) f << c << ' ';
    f << '\n' << t.execs.size() << ' ';
    for (auto h : t.execs) f << h << ' ';
    f << '\n' << t.inter.size() << ' ';
    for (auto h : t.inter) f << h << ' ';
    f << '\n' << t.samples.size() << '\n';
    for (auto&& x : t.samples) f << escape(x) << '\n';
}

static int check(std::string const& id, std::string const& dir, bool thorough, u64 seed, u64 runs, double seconds, int nw, std::string const& evidence, std::string const& known_path) {
    auto* p = find_property(id);
    if (!p) { std::cerr << "no such property: " << id << "\n"; return 2; }
    double start = wall();
    if (runs == 0) runs = thorough ? p->thorough : p->quick;
    std::remove((dir + "/violation").c_str());
    std::remove((dir + "/violation.original").c_str());
    auto* sh = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto known = load_known(known_path);
    std::vector<pid_t> pids {};
    for (int w = 0; w < nw; ++w) {
        std::cout.flush();
        pid_t c = fork();
        if (c == 0) {
            // each worker has its own report area
            rt::rep = static_cast<rt::report*>(mmap(nullptr, sizeof(rt::report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            worker(w, nw, p, seed, runs, start + seconds, thorough, dir, sh, known);
            _exit(0);
        }
        pids.push_back(c);
    }
    bool broken = false;
    for (auto c : pids) { int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) broken = true; }
    totals t {};
    std::set<std::string> samples {};
    for (int w = 0; w < nw; ++w) {
        std::ifstream f { dir + "/worker." + std::to_string(w), std::ios::binary };
        totals x {};
        if (!(f >> x.runs >> x.solo >> x.steps >> x.switches >> x.allocs >> x.alloc_faults >> x.known >> x.unreproducible)) { broken = true; continue; }
        t.runs += x.runs; t.solo += x.solo; t.steps += x.steps; t.switches += x.switches; t.allocs += x.allocs; t.alloc_faults += x.alloc_faults; t.known += x.known; t.unreproducible += x.unreproducible;
        for (auto& c : t.counters) { u64 v = 0; f >> v; c += v; }
        u64 n = 0, h = 0;
        f >> n; for (u64 i = 0; i < n; ++i) { f >> h; t.execs.insert(h); }
        f >> n; for (u64 i = 0; i < n; ++i) { f >> h; t.inter.insert(h); }
        f >> n; std::string l {}; std::getline(f, l);
        for (u64 i = 0; i < n && std::getline(f, l); ++i) samples.insert(l);
    }
    double secs = wall() - start;
    u64 cover = 0;
    for (std::size_t i = 0; i < 65536; ++i) cover += rt::coverage_map()[i];
    auto viol = slurp(dir + "/violation");
    std::ostringstream e {};
    e << "{\n \"property\": " << json(id) << ",\n \"tier\": " << (thorough ? "\"thorough\"" : "\"quick\"") << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << t.runs << ",\n  \"distinct_nontrivial\": " << t.execs.size() << ",\n"
      << "  \"rule\": " << json(std::string { p->rule } + " Distinct: by the hash of the complete sequence of executed program points, memory accesses and allocation sizes of a run.") << ",\n"
      << "  \"simulated_runs_per_hour\": " << static_cast<u64>(static_cast<double>(t.runs) / secs * 3600) << ",\n  \"seeds\": \"one per simulated run\",\n"
      << "  \"solo_reference_runs\": " << t.solo << ",\n"
      << "  \"simulated_time\": " << json(std::to_string(t.steps) + " scheduler steps (the code under test reads no clock; a step is one basic block or one memory access)") << ",\n"
      << "  \"distinct_interleavings\": " << t.inter.size() << ",\n  \"context_switches\": " << t.switches << ",\n  \"allocations\": " << t.allocs << ",\n"
      << "  \"distinct_program_points_reached\": " << cover << ",\n"
      << "  \"unreproducible\": " << t.unreproducible << ",\n  \"known_findings_met\": " << t.known << ",\n"
      << "  \"faults_injected\": {\"alloc-failure\": " << t.alloc_faults;
    for (int i = c_fault_catalog; i <= c_preempt_in_call; ++i) if (t.counters[static_cast<std::size_t>(i)]) e << ", " << json(counter_names[i]) << ": " << t.counters[static_cast<std::size_t>(i)];
    for (int i : { c_locale, c_heap_reuse, c_fault_free_memory, c_fault_churn, c_fault_slow, c_fault_crash, c_yields }) if (t.counters[static_cast<std::size_t>(i)]) e << ", " << json(counter_names[i]) << ": " << t.counters[static_cast<std::size_t>(i)];
    e << "},\n  \"observed\": {";
    bool first = true;
    for (int i = c_overlap; i < c_last; ++i) if (t.counters[static_cast<std::size_t>(i)] && i != c_locale && i != c_heap_reuse && i != c_fault_free_memory && i != c_fault_churn && i != c_fault_slow && i != c_fault_crash && i != c_yields) { e << (first ? "" : ", ") << json(counter_names[i]) << ": " << t.counters[static_cast<std::size_t>(i)]; first = false; }
    e << "},\n  \"real_code\": \"all of include/mizugaki and src/mizugaki, with the flex scanner and bison parser generated from the working tree\",\n"
      << "  \"stubbed\": \"takatori, yugawara and mpdecimal (stand-ins in deps/include), heap, thread scheduler, one-time initialisation, catalogs, serializer acceptors\",\n"
      << "  \"samples\": [";
    first = true;
    int ns = 0;
    for (auto&& s : samples) { if (ns++ >= 3) break; e << (first ? "" : ",\n   ") << json(s); first = false; }
    e << "]\n },\n \"assumptions\": [\"the stand-ins for takatori and yugawara behave like the originals in what the code under test uses (the repository's own 1229 tests pass against them)\", \"preemption between any two basic blocks or memory accesses, sequentially consistent memory plus a happens-before race detector\"],\n"
      << " \"wall_s\": " << secs << ",\n \"violations\": " << (viol.empty() ? 0 : 1) << "\n}\n";
    if (!evidence.empty()) std::ofstream { evidence } << e.str();
    for (auto&& k : known) if (k.prop == id) std::cout << "KNOWN-FINDING: property=" << id << " " << k.text << "\n";
    std::cout << id << ": " << t.runs << " runs (" << t.solo << " solo), " << t.execs.size() << " distinct, " << t.inter.size() << " interleavings, " << t.alloc_faults << " allocation failures, " << cover << " points, " << secs << " s"
              << (t.unreproducible ? ", unreproducible: " + std::to_string(t.unreproducible) : "") << "\n";
    if (!viol.empty()) {
        std::istringstream in { viol }; std::string l {}; int n = 0;
        while (std::getline(in, l) && n++ < 30) if (l[0] == '#') std::cout << l << "\n";
        std::cout << "VIOLATION property=" << id << " replay=" << dir << "/violation\n";
        return 1;
    }
    if (broken) { std::cerr << "a worker failed\n"; return 2; }
    return 0;
}

} // namespace sim

int main(int argc, char** argv) {
    using namespace sim;
    rt::init();
    std::vector<std::string> a { argv + 1, argv + argc };
    auto opt = [&](std::string const& n, std::string const& d) { for (std::size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == n) return a[i + 1]; return d; };
    if (!a.empty() && a[0] == "check") {
        return check(a.at(1), opt("--dir", "."), opt("--tier", "quick") == "thorough", std::stoull(opt("--seed", "1")), std::stoull(opt("--runs", "0")), std::stod(opt("--seconds", "40")),
                std::stoi(opt("--workers", "8")), opt("--evidence", ""), opt("--known", ""));
    }
    if (!a.empty() && a[0] == "replay") {
        scenario s {};
        std::string err {};
        if (!from_text(slurp(a.at(1)), s, err)) { std::cerr << err << "\n"; return 2; }
        if (!find_property(s.prop)) { std::cerr << "unknown property\n"; return 2; }
        oracle_impl orc {};
        auto o = run(s, orc);
        if (o.violation) {
            std::cout << replay_text(s, o) << "VIOLATION property=" << s.prop << " replay=" << a[1] << "\n";
            return 1;
        }
        char b[32]; snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(o.hash));
        std::cout << "no violation; execution " << b << " steps " << o.steps << "\n";
        return 0;
    }
    if (!a.empty() && a[0] == "gen") { // shows the scenario of one seed
        auto* p = find_property(a.at(1));
        scenario s {};
        s.prop = p->id; s.seed = std::stoull(a.at(2));
        rt::prng r { s.seed ^ 0x5EEDC0DEULL ^ (static_cast<u64>(p->id[0]) << 40U) ^ (static_cast<u64>(p->id[1]) << 48U) ^ (static_cast<u64>(p->id[2]) << 56U) };
        oracle_impl orc {};
        p->generate(r, s, orc, false);
        std::cout << to_text(s);
        return 0;
    }
    std::cerr << "usage: dsim check ID [--tier quick|thorough] [--seed N] [--runs N] [--seconds S] [--dir D] [--evidence F] | replay FILE | gen ID SEED\n";
    return 2;
}
