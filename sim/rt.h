// Simulation runtime: seeded scheduler over real (parked) threads, simulated heap, fault points.
//
// Everything that could vary between two executions of one run is decided here:
//  * which thread runs next: every basic block and every non-stack memory access of the code under
//    test is a preemption point (compiler instrumentation, see tools/build.py), and a run names the
//    points at which it switches;
//  * heap: addresses come from an arena at a fixed address; reuse policy, initial contents and
//    failures are chosen by the run;
//  * process state: every run is a forked child of a process that has not executed any code under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace rt {

using u64 = std::uint64_t;
using u32 = std::uint32_t;
using u8 = std::uint8_t;

constexpr int max_threads = 4;

/// xoshiro-like PRNG: the only source of choice.
class prng {
public:
    explicit prng(u64 seed) noexcept { u64 z = seed; for (auto& x : s_) { z += 0x9E3779B97F4A7C15ULL; u64 y = z; y = (y ^ (y >> 30U)) * 0xBF58476D1CE4E5B9ULL; y = (y ^ (y >> 27U)) * 0x94D049BB133111EBULL; x = y ^ (y >> 31U); } }
    u64 next() noexcept {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        u64 r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
        s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 45);
        return r;
    }
    /// [0, n)
    u64 below(u64 n) noexcept { return n == 0 ? 0 : next() % n; }
    /// [a, b]
    long range(long a, long b) noexcept { return a + static_cast<long>(below(static_cast<u64>(b - a + 1))); }
    bool chance(unsigned num, unsigned den) noexcept { return below(den) < num; }
    template<class C> auto& pick(C& c) noexcept { return c[below(c.size())]; }
private:
    u64 s_[4] {};
};

struct switch_point { int thread; u64 step; int pick; };

struct heap_config {
    int reuse { 0 };      ///< 0: never reuse (freed memory stays poisoned), 1: LIFO, 2: random
    int layout { 0 };     ///< 0: ascending, 1: random gaps, 2: descending
    u8 fill { 0xCD };     ///< contents of fresh memory
    u64 seed { 1 };
};

struct alloc_fault {
    long at { -1 };       ///< armed allocation number (per arm epoch) which fails, or -1
    long len { 1 };       ///< how many consecutive ones fail
    std::size_t min_size { 0 }; ///< only allocations at least this large count
};

/// result area shared between the child and its parent
struct report {
    volatile int status;          // 0: not finished, 1: finished
    volatile int violation;
    char cls[96];
    char msg[1 << 16];
    void* frames[48];
    int nframes;
    u64 hash;                     // of the complete execution
    u64 switch_hash;              // of the interleaving only
    u64 steps;
    u64 switches;
    u64 allocs;
    u64 alloc_faults;
    u64 counters[64];             // scenario counters (see names in props)
    u32 out_size;
    char out[(1 << 20) * 6];
};

extern report* rep;

void init();                       // once, in the process root
void begin_child(heap_config const& h);
[[noreturn]] void end_child();

[[noreturn]] void violation(char const* cls, std::string const& message);
void count(int counter, u64 n = 1);
void output(std::string const& text);   // appends to rep->out

/// marks the current thread as executing code under test
class armed { public: armed(); ~armed(); armed(armed const&) = delete; armed& operator=(armed const&) = delete; private: int old_; };
/// memory which the harness takes in this scope is used again as soon as it is released, whatever the heap does
class scratch { public: scratch(); ~scratch(); private: bool before_; };
class disarmed { public: disarmed(); ~disarmed(); disarmed(disarmed const&) = delete; disarmed& operator=(disarmed const&) = delete; private: int old_; };

void set_alloc_fault(alloc_fault const& f);  // for the current thread; resets its counter
u64 thread_allocs();                          // armed allocations of this thread since the last reset
u64 thread_steps();
u64 fired_allocs();
void exempt_allocs(bool v);                   // excludes allocations of the current thread from failing

/// heap state
u64 live_armed_blocks();
u64 live_armed_bytes();
std::string describe_live(std::size_t limit);
u64 live_mark();                                ///< sequence number of the next block
u64 live_since(u64 mark);                       ///< armed blocks still live, allocated after the mark
void check_heap();                              ///< poison / redzone scan

/// records (per thread 0) the step of every distinct program point, for choosing switch points
void record_points(bool v);
std::vector<u64> recorded_points(u64 salt);
/// records the ordinals of allocations which happened at distinct program points
std::vector<u64> recorded_allocs(u64 salt);

/// runs each body on its own thread, one at a time, switching at the given points.
void run_threads(std::vector<std::function<void()>> bodies, std::vector<switch_point> const& points, bool detect_races, std::size_t stack_kb, u64 step_limit);
/// runs the body alone on a simulated thread
void run_single(std::function<void()> body, std::size_t stack_kb = 8192, u64 step_limit = 400000000ULL);
u64 now();    ///< global event number (all threads)
int current_thread();
void probe(int counter);

std::string symbolize(void* const* frames, int n, std::size_t limit);

} // namespace rt
