#include "rt.h"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <unistd.h>
#include <unwind.h>

extern "C" char __data_start; // NOLINT
extern "C" char _end;         // NOLINT
extern "C" char __executable_start; // NOLINT

extern "C" void* __real_memcpy(void*, void const*, std::size_t);
extern "C" void* __real_memmove(void*, void const*, std::size_t);
extern "C" void* __real_memset(void*, int, std::size_t);

namespace rt {

report* rep = nullptr;
static bool in_child = false;

// ---------------------------------------------------------------- threads

struct point_rec { u64 pc; u64 n; u64 first; u64 other; };

struct ctl {
    int id { -1 };
    int armed { 0 };
    int exempt { 0 };
    u64 steps { 0 };
    u64 last_pc { 0 };
    u64 allocs { 0 };
    alloc_fault fault {};
    switch_point const* sw { nullptr };
    std::size_t nsw { 0 };
    u64 next_sw { ~0ULL };
    bool finished { false };
    int turn { 0 };
    char* stack_lo { nullptr };
    char* stack_hi { nullptr };
    u32 vc[max_threads] {};
    std::function<void()>* body { nullptr };
    void* altstack { nullptr };
};

static ctl ctls[max_threads];
static thread_local ctl* cur = nullptr;
static int nthreads = 0;
static int main_turn = 0;
static bool race_mode = false;
static bool in_run = false;       // threads are running
static bool recording = false;
static u64 g_steps = 0, g_hash = 1469598103934665603ULL, g_swhash = 1469598103934665603ULL, g_switches = 0, g_limit = ~0ULL;
static u64 g_alloc_total = 0, g_fired = 0;
static u64 g_events = 0;
static unsigned char* coverage = nullptr; // shared map

constexpr std::size_t rec_cap = 1U << 16U;
static point_rec* prec = nullptr;
static point_rec* arec = nullptr;
static u64 rec_salt = 0x9E3779B97F4A7C15ULL;

static void rec_add(point_rec* t, u64 key, u64 value) {
    if (key == 0) key = 1;
    u64 h = key * 0x9E3779B97F4A7C15ULL;
    for (std::size_t i = h >> 48U, k = 0; k < rec_cap; ++k, i = (i + 1) & (rec_cap - 1)) {
        auto& e = t[i];
        if (e.pc == 0) { e = { key, 1, value, value }; return; }
        if (e.pc == key) {
            ++e.n;
            u64 r = (value + e.n) * 0xD6E8FEB86659FD93ULL ^ rec_salt; r ^= r >> 32U; r *= 0xD6E8FEB86659FD93ULL; r ^= r >> 29U;
            if (r % e.n == 0) e.other = value;
            return;
        }
    }
}

static void futex_wait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void futex_wake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void switch_to(ctl& to, u64 why) {
    ctl* me = cur;
    if (&to == me) return;
    ++g_switches;
    g_swhash = (g_swhash ^ (why * 31 + static_cast<u64>(me->id) * 7 + static_cast<u64>(to.id) + (me->steps << 8U))) * 1099511628211ULL;
    futex_wake(&to.turn);
    futex_wait(&me->turn);
}

static ctl* other(int pick) {
    ctl* c[max_threads]; int n = 0;
    for (int i = 0; i < nthreads; ++i) if (&ctls[i] != cur && !ctls[i].finished) c[n++] = &ctls[i];
    if (n == 0) return nullptr;
    return c[pick % n];
}
static ctl* round_robin() {
    for (int k = 1; k < nthreads; ++k) { auto& c = ctls[(cur->id + k) % nthreads]; if (!c.finished) return &c; }
    return nullptr;
}

static void next_switch(ctl& c) {
    while (c.nsw > 0 && (c.sw->thread != c.id || c.sw->step <= c.steps)) { ++c.sw; --c.nsw; }
    c.next_sw = c.nsw > 0 ? c.sw->step : ~0ULL;
}

static inline void point(ctl& c, u64 pc) {
    ++c.steps; ++g_steps;
    c.last_pc = pc;
    g_hash = (g_hash ^ pc) * 1099511628211ULL;
    if (__builtin_expect(recording, 0)) rec_add(prec, pc, c.steps);
    if (__builtin_expect(c.steps == c.next_sw, 0)) {
        int pick = c.sw->pick;
        next_switch(c);
        int a = c.armed; c.armed = 0;
        if (auto* o = other(pick)) switch_to(*o, pc);
        c.armed = a;
    }
    if (__builtin_expect(g_steps > g_limit, 0)) violation("hang", "step limit exceeded: the call does not terminate");
}

armed::armed() : old_ { 0 } { if (cur) { old_ = cur->armed; cur->armed = 1; } }
armed::~armed() { if (cur) cur->armed = old_; }
disarmed::disarmed() : old_ { 0 } { if (cur) { old_ = cur->armed; cur->armed = 0; } }
disarmed::~disarmed() { if (cur) cur->armed = old_; }

u64 now() { return ++g_events + g_steps; }
int current_thread() { return cur ? cur->id : -1; }
u64 thread_steps() { return cur ? cur->steps : 0; }
u64 thread_allocs() { return cur ? cur->allocs : 0; }
u64 fired_allocs() { return g_fired; }
void set_alloc_fault(alloc_fault const& f) { if (cur) { cur->fault = f; cur->allocs = 0; } }
void exempt_allocs(bool v) { if (cur) cur->exempt += v ? 1 : -1; }

static std::size_t stack_base() { return 0x300000000000ULL; }
constexpr std::size_t stack_slot = 64ULL << 20U;

static void* thread_main(void* p) {
    auto& c = *static_cast<ctl*>(p);
    cur = &c;
    if (c.altstack) { stack_t ss {}; ss.ss_sp = c.altstack; ss.ss_size = 64 << 10; sigaltstack(&ss, nullptr); }
    futex_wait(&c.turn);
    try {
        (*c.body)();
    } catch (std::exception const& e) {
        violation("uncaught", std::string { "exception escaped the workload: " } + e.what());
    }
    c.finished = true;
    cur = nullptr;
    for (int k = 1; k < nthreads; ++k) {
        auto& o = ctls[(c.id + k) % nthreads];
        if (!o.finished) { futex_wake(&o.turn); return nullptr; }
    }
    futex_wake(&main_turn);
    return nullptr;
}

void run_threads(std::vector<std::function<void()>> bodies, std::vector<switch_point> const& points, bool races, std::size_t stack_kb, u64 step_limit) {
    nthreads = static_cast<int>(bodies.size());
    race_mode = races && nthreads > 1;
    g_limit = g_steps + step_limit;
    pthread_t th[max_threads];
    std::vector<std::vector<switch_point>> per(max_threads);
    for (auto&& p : points) if (p.thread >= 0 && p.thread < nthreads) per[static_cast<std::size_t>(p.thread)].push_back(p);
    for (int i = 0; i < nthreads; ++i) {
        auto& c = ctls[i];
        auto base = c.vc[i];
        c = ctl {};
        c.id = i;
        for (auto& x : c.vc) x = 0;
        (void) base;
        c.vc[i] = 1;
        c.body = &bodies[static_cast<std::size_t>(i)];
        auto& v = per[static_cast<std::size_t>(i)];
        for (std::size_t a = 1; a < v.size(); ++a) for (std::size_t b = a; b > 0 && v[b].step < v[b - 1].step; --b) std::swap(v[b], v[b - 1]);
        c.sw = v.data(); c.nsw = v.size();
        next_switch(c);
        char* slot = reinterpret_cast<char*>(stack_base() + static_cast<std::size_t>(i) * stack_slot);
        std::size_t size = stack_kb << 10U;
        if (size > stack_slot - (1U << 20U)) size = stack_slot - (1U << 20U);
        char* lo = slot + stack_slot - size;
        void* m = mmap(lo, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (m == MAP_FAILED) { perror("stack"); _exit(99); }
        mmap(lo - 4096, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        c.stack_lo = lo; c.stack_hi = lo + size;
        c.altstack = mmap(slot, 64 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, lo, size);
        int e = pthread_create(&th[i], &at, thread_main, &c);
        if (e != 0) { fprintf(stderr, "pthread_create %d\n", e); _exit(99); }
        pthread_attr_destroy(&at);
    }
    main_turn = 0;
    in_run = true;
    futex_wake(&ctls[0].turn);
    futex_wait(&main_turn);
    for (int i = 0; i < nthreads; ++i) pthread_join(th[i], nullptr);
    race_mode = false;
    in_run = false;
    nthreads = 0;
}

void run_single(std::function<void()> body, std::size_t stack_kb, u64 step_limit) {
    std::vector<std::function<void()>> b {};
    b.emplace_back(std::move(body));
    run_threads(std::move(b), {}, false, stack_kb, step_limit);
}

void record_points(bool v) {
    if (v) {
        __real_memset(prec, 0, rec_cap * sizeof(point_rec));
        __real_memset(arec, 0, rec_cap * sizeof(point_rec));
    }
    recording = v;
}
static std::vector<u64> collect(point_rec* t, u64 salt) {
    std::vector<u64> r {};
    for (std::size_t i = 0; i < rec_cap; ++i) if (t[i].pc) { r.push_back(t[i].first); if (t[i].n > 1 && ((t[i].pc ^ salt) & 1U)) r.push_back(t[i].other); }
    return r;
}
std::vector<u64> recorded_points(u64 salt) { return collect(prec, salt); }
std::vector<u64> recorded_allocs(u64 salt) { return collect(arec, salt); }

// ---------------------------------------------------------------- happens-before race detection

struct cell { u32 wclk; u32 rclk[max_threads]; u8 wtid; u8 wmask; u8 rmask[max_threads]; u32 wpc; u32 rpc; };
static cell* shadow_arena = nullptr;
static cell* shadow_data = nullptr;
constexpr std::size_t arena_base = 0x200000000000ULL;
constexpr std::size_t arena_size = 1ULL << 30U;
constexpr std::size_t race_window = 256ULL << 20U; // of the arena, in race mode
static std::size_t data_lo = 0, data_hi = 0;

struct sync_rec { u64 addr; u32 vc[max_threads]; };
constexpr std::size_t sync_cap = 1U << 14U;
static sync_rec* syncs = nullptr;
static sync_rec& sync_of(void const* a) {
    u64 key = reinterpret_cast<u64>(a);
    for (std::size_t i = (key * 0x9E3779B97F4A7C15ULL) >> 50U, k = 0; k < sync_cap; ++k, i = (i + 1) & (sync_cap - 1)) {
        auto& e = syncs[i];
        if (e.addr == 0) { e.addr = key; return e; }
        if (e.addr == key) return e;
    }
    fprintf(stderr, "sync table full\n"); _exit(99);
}
static void hb_acquire(void const* a) { if (cur && race_mode) { auto& s = sync_of(a); for (int i = 0; i < max_threads; ++i) if (s.vc[i] > cur->vc[i]) cur->vc[i] = s.vc[i]; } }
static void hb_release(void const* a) { if (cur && race_mode) { auto& s = sync_of(a); for (int i = 0; i < max_threads; ++i) if (cur->vc[i] > s.vc[i]) s.vc[i] = cur->vc[i]; ++cur->vc[cur->id]; } }

static cell* cell_of(u64 a) {
    if (a - arena_base < race_window) return shadow_arena + ((a - arena_base) >> 3U);
    if (a >= data_lo && a < data_hi) return shadow_data + ((a - data_lo) >> 3U);
    return nullptr;
}

static void race(u64 addr, char const* what, int t0, u64 pc0, u64 pc1) {
    rep->frames[0] = reinterpret_cast<void*>(pc0);
    rep->frames[1] = reinterpret_cast<void*>(pc1);
    rep->nframes = 2;
    char b[256];
    snprintf(b, sizeof b, "unsynchronised conflicting accesses (%s) to %s memory by thread %d and thread %d", what,
            addr - arena_base < arena_size ? "heap" : "static", t0, cur->id);
    violation("data-race", b);
}

static void access(u64 a, unsigned size, bool write, u64 pc) {
    while (size > 0) {
        unsigned off = a & 7U, n = 8 - off < size ? 8 - off : size;
        u8 mask = static_cast<u8>(((1U << n) - 1U) << off);
        if (cell* c = cell_of(a)) {
            int me = cur->id;
            if (c->wclk != 0 && c->wtid != me && (c->wmask & mask) && c->wclk > cur->vc[c->wtid]) race(a, write ? "write/write" : "write/read", c->wtid, c->wpc, pc);
            if (write) {
                for (int t = 0; t < max_threads; ++t) if (t != me && c->rclk[t] != 0 && (c->rmask[t] & mask) && c->rclk[t] > cur->vc[t]) race(a, "read/write", t, c->rpc, pc);
                if (c->wclk == cur->vc[me] && c->wtid == me) c->wmask |= mask; else c->wmask = mask;
                c->wtid = static_cast<u8>(me); c->wclk = cur->vc[me]; c->wpc = static_cast<u32>(pc);
            } else {
                if (c->rclk[me] == cur->vc[me]) c->rmask[me] |= mask; else c->rmask[me] = mask;
                c->rclk[me] = cur->vc[me]; c->rpc = static_cast<u32>(pc);
            }
        }
        a += n; size -= n;
    }
}

// valid bytes of every 16 bytes of the arena
static u8* valid_bytes = nullptr;
static void set_valid(u64 a, std::size_t size) {
    u8* v = valid_bytes + ((a - arena_base) >> 4U);
    if (size >= 16) __real_memset(v, 16, size >> 4U);
    if (size & 15U) v[size >> 4U] = static_cast<u8>(size & 15U);
}
static void set_invalid(u64 a, std::size_t cap) { __real_memset(valid_bytes + ((a - arena_base) >> 4U), 0, cap >> 4U); }
[[noreturn]] static void invalid_access(u64 a, bool write);
static inline void check_valid(u64 a, std::size_t size, bool write) {
    if (a - arena_base >= arena_size) return;
    u64 g = (a - arena_base) >> 4U;
    u64 off = a & 15U;
    for (;;) {
        std::size_t n = 16 - off < size ? 16 - off : size;
        if (__builtin_expect(off + n > valid_bytes[g], 0)) invalid_access(a, write);
        size -= n;
        if (size == 0) return;
        ++g; off = 0;
    }
}

static inline bool is_stack(u64 a) { return a - 0x300000000000ULL < stack_slot * max_threads; }

static inline void mem(void const* p, unsigned size, bool write, u64 pc) {
    ctl* c = cur;
    if (!c || !c->armed) return;
    u64 a = reinterpret_cast<u64>(p);
    if (is_stack(a)) return;
    check_valid(a, size, write);
    point(*c, pc);
    if (race_mode) access(a, size, write, pc);
}

// ---------------------------------------------------------------- heap

struct hdr {
    u32 state;   // live / freed
    u32 tag;     // 1: allocated by armed code
    u32 size;
    u32 cap;
    hdr* next;
    u64 seq;
    u64 pc;      // where (last program point)
    u64 guard;
};
constexpr u32 st_live = 0xA11C0DE5, st_free = 0xF4EEDEAD;
constexpr u64 guard_value = 0xFEFEFEFEFEFEFEFEULL;

static char* bump = nullptr;
static char* bump_down = nullptr;
static heap_config hc { 1, 0, 0xCD, 1 }; // outside of runs: reuse
static prng heap_rng { 1 };
static hdr** blocks = nullptr;
static std::size_t nblocks = 0;
constexpr std::size_t max_blocks = 8U << 20U;
constexpr std::size_t nclasses = 300;
static hdr* freelist[nclasses];
static hdr* scratchlist[nclasses];
static bool scratch_on = false;
scratch::scratch() : before_ { scratch_on } { scratch_on = true; }
scratch::~scratch() { scratch_on = before_; }
static std::size_t freecount[nclasses];
static u64 block_seq = 0;
static u64 live_blocks = 0, live_bytes = 0;
static bool heap_ready = false;

static void heap_setup() {
    if (heap_ready) return;
    heap_ready = true;
    void* m = mmap(reinterpret_cast<void*>(arena_base), arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == MAP_FAILED) { static char const e[] = "arena\n"; (void) !write(2, e, sizeof e); _exit(99); }
    bump = static_cast<char*>(m);
    bump_down = bump + arena_size;
    valid_bytes = static_cast<u8*>(mmap(nullptr, arena_size >> 4U, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    blocks = static_cast<hdr**>(mmap(nullptr, max_blocks * sizeof(hdr*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}

/// capacities above 4 KiB are rounded to powers of two when memory is reused
static std::size_t cap_of(std::size_t n, bool tag) {
    std::size_t c = (n + 15) / 16 * 16; if (c == 0) c = 16;
    if (c <= 4096 || (hc.reuse == 0 && tag)) return c;
    std::size_t p = 8192; while (p < c) p *= 2;
    return p;
}
static std::size_t cls_of(std::size_t cap) { return cap <= 4096 ? cap / 16 : (cap & (cap - 1)) == 0 ? 260 + static_cast<std::size_t>(__builtin_ctzll(cap)) : nclasses; }

static void* heap_alloc(std::size_t size, std::size_t align, bool zero) {
    heap_setup();
    bool tag = cur && cur->armed;
    bool temporary = scratch_on && !tag;
    if (size > (256U << 20U)) return nullptr;
    std::size_t cap = cap_of(size, tag);
    std::size_t k = cls_of(cap);
    hdr* h = nullptr;
    // where nothing is reused, the larger blocks of the harness still are
    if (temporary && k < nclasses && scratchlist[k] && align <= 16) {
        h = scratchlist[k]; scratchlist[k] = h->next;
    } else if (!temporary && (hc.reuse != 0 || (!tag && cap >= 512)) && k < nclasses && freelist[k] && align <= 16) {
        hdr** pp = &freelist[k];
        if (hc.reuse == 2) { for (u64 i = heap_rng.below(freecount[k] < 16 ? freecount[k] : 16); i > 0; --i) pp = &(*pp)->next; }
        h = *pp; *pp = h->next; --freecount[k];
    } else {
        std::size_t gap = hc.layout == 1 ? heap_rng.below(12) * 16 : 0;
        std::size_t total = sizeof(hdr) + cap + 16 + gap;
        char* p;
        if (hc.layout == 2 && in_child) {
            char* u = bump_down - (cap + 16);
            u = reinterpret_cast<char*>(reinterpret_cast<u64>(u) & ~static_cast<u64>(align < 16 ? 15 : align - 1));
            p = u - sizeof(hdr);
            bump_down = p;
        } else {
            char* u = bump + sizeof(hdr) + gap;
            u = reinterpret_cast<char*>((reinterpret_cast<u64>(u) + (align < 16 ? 15 : align - 1)) & ~static_cast<u64>(align < 16 ? 15 : align - 1));
            p = u - sizeof(hdr);
            bump = u + cap + 16;
            (void) total;
        }
        if (bump + (1U << 20U) > bump_down || nblocks + 1 >= max_blocks) {
            static bool once = false;   // the report itself needs some memory
            if (!in_child) return nullptr;
            if (!once) { once = true; violation("memory", "simulated heap of 1 GiB exhausted"); }
        }
        h = reinterpret_cast<hdr*>(p);
        blocks[nblocks++] = h;
    }
    h->state = st_live; h->tag = tag ? 1 : temporary ? 2 : 0; h->size = static_cast<u32>(size); h->cap = static_cast<u32>(cap); h->next = nullptr; h->seq = ++block_seq; h->guard = guard_value;
    h->pc = cur ? cur->last_pc : 0;
    char* u = reinterpret_cast<char*>(h + 1);
    __real_memset(u, zero ? 0 : hc.fill, size);
    __real_memset(u + size, 0xFE, cap + 16 - size);
    set_valid(reinterpret_cast<u64>(u), size);
    if (tag) { ++live_blocks; live_bytes += size; }
    if (race_mode && !is_stack(reinterpret_cast<u64>(u))) {
        u64 a = reinterpret_cast<u64>(u);
        if (a - arena_base < race_window && (hc.reuse != 0 || !tag)) __real_memset(cell_of(a), 0, sizeof(cell) * ((size + 7) / 8));
    }
    return u;
}

static void heap_free(void* p) {
    if (!p) return;
    hdr* h = static_cast<hdr*>(p) - 1;
    if (reinterpret_cast<u64>(p) - arena_base >= arena_size || (reinterpret_cast<u64>(p) & 15U) != 0) violation("heap:bad-free", "free of a pointer which was never allocated");
    if (h->state == st_free) violation("heap:double-free", "block freed twice");
    if (h->state != st_live) violation("heap:bad-free", "free of a pointer which is not the start of a block");
    std::size_t cap = h->cap;
    char* u = static_cast<char*>(p);
    if (h->guard != guard_value) violation("heap:overrun", "memory before a block was overwritten");
    for (std::size_t i = h->size; i < cap + 16; ++i) if (static_cast<u8>(u[i]) != 0xFE) violation("heap:overrun", "memory after a block was overwritten");
    h->state = st_free;
    bool tag = h->tag == 1, temporary = h->tag == 2;
    if (tag) { --live_blocks; live_bytes -= h->size; h->tag = 0; }
    __real_memset(u, 0xDB, cap);
    set_invalid(reinterpret_cast<u64>(u), cap);
    std::size_t k = cls_of(cap);
    if (temporary && k < nclasses) { h->next = scratchlist[k]; scratchlist[k] = h; }
    else if ((hc.reuse != 0 || (!tag && cap >= 512)) && k < nclasses) { h->next = freelist[k]; freelist[k] = h; ++freecount[k]; }
}

void check_heap() {
    for (std::size_t i = 0; i < nblocks; ++i) {
        hdr* h = blocks[i];
        auto* u = reinterpret_cast<u8*>(h + 1);
        std::size_t cap = h->cap;
        if (h->guard != guard_value) violation("heap:overrun", "memory before a block was overwritten");
        if (h->state == st_live) {
            for (std::size_t j = h->size; j < cap + 16; ++j) if (u[j] != 0xFE) violation("heap:overrun", "memory after a block was overwritten");
        } else if (h->state == st_free) {
            for (std::size_t j = 0; j < cap; ++j) if (u[j] != 0xDB) violation("heap:use-after-free", "freed memory was written");
        } else {
            violation("heap:overrun", "block header was overwritten");
        }
    }
}

static void invalid_access(u64 a, bool write) {
    hdr* in = nullptr;
    for (std::size_t i = 0; i < nblocks; ++i) {
        u64 lo = reinterpret_cast<u64>(blocks[i] + 1);
        if (a >= lo && a < lo + blocks[i]->cap) in = blocks[i];
    }
    bool freed = in && in->state == st_free;
    violation(freed ? "heap:use-after-free" : "heap:overrun", std::string { write ? "write to" : "read of" } + (freed ? " memory which was released" : " memory outside of any block"));
}

u64 live_armed_blocks() { return live_blocks; }
u64 live_armed_bytes() { return live_bytes; }
u64 live_mark() { return block_seq + 1; }
u64 live_since(u64 mark) {
    u64 n = 0;
    for (std::size_t i = 0; i < nblocks; ++i) if (blocks[i]->state == st_live && blocks[i]->tag == 1 && blocks[i]->seq >= mark) ++n;
    return n;
}
std::string describe_live(std::size_t limit) {
    std::string r {};
    std::size_t n = 0;
    void* fr[48]; int nf = 0;
    for (std::size_t i = nblocks; i-- > 0 && n < limit;) {
        if (blocks[i]->state == st_live && blocks[i]->tag == 1) {
            ++n;
            r += "  leaked block of " + std::to_string(blocks[i]->size) + " bytes\n";
            if (nf < 16) fr[nf++] = reinterpret_cast<void*>(blocks[i]->pc);
        }
    }
    for (int i = 0; i < nf; ++i) rep->frames[i] = fr[i];
    rep->nframes = nf;
    return r;
}

/// decides whether this allocation fails
static bool alloc_fails(std::size_t size) {
    ctl* c = cur;
    if (!c || !c->armed) return false;
    if (c->exempt > 0 || size < c->fault.min_size) return false;
    u64 n = c->allocs++;
    ++g_alloc_total;
    if (recording) rec_add(arec, c->last_pc, n);
    g_hash = (g_hash ^ (size * 0x9E37)) * 1099511628211ULL;
    if (c->fault.at >= 0 && n >= static_cast<u64>(c->fault.at) && n < static_cast<u64>(c->fault.at + c->fault.len)) { ++g_fired; return true; }
    return false;
}

// ---------------------------------------------------------------- reporting

static _Unwind_Reason_Code unwind_step(struct _Unwind_Context* ctx, void* arg) {
    auto* n = static_cast<int*>(arg);
    if (*n >= 48) return _URC_END_OF_STACK;
    auto ip = _Unwind_GetIP(ctx);
    if (ip) rep->frames[(*n)++] = reinterpret_cast<void*>(ip - 1);
    return _URC_NO_REASON;
}
static void backtrace() { int n = 0; _Unwind_Backtrace(unwind_step, &n); rep->nframes = n; }

static void finish_stats() {
    rep->hash = g_hash; rep->switch_hash = g_swhash; rep->steps = g_steps; rep->switches = g_switches; rep->allocs = g_alloc_total; rep->alloc_faults = g_fired;
}

void violation(char const* cls, std::string const& message) {
    if (cur) cur->armed = 0;
    race_mode = false;
    if (!in_child) { fprintf(stderr, "violation outside of a run: %s: %s\n", cls, message.c_str()); _exit(99); }
    if (!rep->violation) {
        rep->violation = 1;
        snprintf(rep->cls, sizeof rep->cls, "%s", cls);
        snprintf(rep->msg, sizeof rep->msg, "%s", message.c_str());
        if (rep->nframes == 0) backtrace();
    }
    finish_stats();
    rep->status = 1;
    _exit(0);
}

static void on_signal(int sig, siginfo_t* si, void* uc) {
    auto* ctx = static_cast<ucontext_t*>(uc);
    u64 addr = reinterpret_cast<u64>(si->si_addr);
    if (!rep->violation) {
        rep->violation = 1;
        bool over = false;
        if (cur) { cur->armed = 0; over = (sig == SIGSEGV || sig == SIGBUS) && addr >= reinterpret_cast<u64>(cur->stack_lo) - (1U << 20U) && addr < reinterpret_cast<u64>(cur->stack_lo) + 4096; }
        snprintf(rep->cls, sizeof rep->cls, over ? "stack-overflow" : sig == SIGABRT ? "abort" : sig == SIGILL ? "undefined-behaviour" : "crash");
        snprintf(rep->msg, sizeof rep->msg, "signal %d (%s)%s", sig, strsignal(sig), (addr >> 32U) == 0xDBDBDBDBULL || addr == 0 ? (addr == 0 ? "" : " through freed memory") : "");
        u64 rip = static_cast<u64>(ctx->uc_mcontext.gregs[REG_RIP]);
        rep->frames[0] = reinterpret_cast<void*>(rip);
        rep->nframes = 1;
        // conservative scan of the stack for return addresses
        if (!over && cur) {
            auto* sp = reinterpret_cast<u64*>(ctx->uc_mcontext.gregs[REG_RSP]);
            auto text_lo = reinterpret_cast<u64>(&__executable_start), text_hi = static_cast<u64>(data_lo);
            for (int i = 0; i < 600 && reinterpret_cast<char*>(sp + 1) < cur->stack_hi && rep->nframes < 40; ++i, ++sp) if (*sp > text_lo + 0x1000 && *sp < text_hi) rep->frames[rep->nframes++] = reinterpret_cast<void*>(*sp - 1);
        }
    }
    finish_stats();
    rep->status = 1;
    _exit(0);
}

static void on_terminate() {
    if (cur) cur->armed = 0;
    std::string what = "std::terminate was called";
    std::string cls = "terminate";
    if (auto* t = abi::__cxa_current_exception_type()) {
        int st = 0;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        what += std::string { " with an active exception of type " } + (d ? d : t->name());
    }
    violation(cls.c_str(), what);
}

static void on_exit_called() { if (in_child && rep && rep->status == 0) violation("exit", "the library ended the whole process (exit)"); }

void count(int counter, u64 n) { rep->counters[counter] += n; }
void probe(int counter) { rep->counters[counter] += 1; }

void output(std::string const& text) {
    std::size_t left = sizeof rep->out - rep->out_size;
    std::size_t n = text.size() < left ? text.size() : left;
    __real_memcpy(rep->out + rep->out_size, text.data(), n);
    rep->out_size += static_cast<u32>(n);
}

void init() {
    heap_setup();
    try { throw 1; } catch (int) {} // the unwinder keeps what it allocates for its first exception
    rep = static_cast<report*>(mmap(nullptr, sizeof(report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    prec = static_cast<point_rec*>(mmap(nullptr, rec_cap * sizeof(point_rec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    arec = static_cast<point_rec*>(mmap(nullptr, rec_cap * sizeof(point_rec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    syncs = static_cast<sync_rec*>(mmap(nullptr, sync_cap * sizeof(sync_rec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    data_lo = reinterpret_cast<u64>(&__data_start) & ~7ULL;
    data_hi = (reinterpret_cast<u64>(&_end) + 7) & ~7ULL;
    shadow_arena = static_cast<cell*>(mmap(nullptr, sizeof(cell) * (race_window >> 3U), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    shadow_data = static_cast<cell*>(mmap(nullptr, sizeof(cell) * ((data_hi - data_lo) / 8 + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    coverage = static_cast<unsigned char*>(mmap(nullptr, 1U << 16U, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

void begin_child(heap_config const& h) {
    __real_memset(rep, 0, offsetof(report, out));
    in_child = true;
    // A run starts from the same addresses whatever the process did before.
    u64 off = reinterpret_cast<u64>(bump) - arena_base;
    u64 start = 128ULL << 20U;
    if (off > start) { fprintf(stderr, "root heap too large\n"); _exit(99); }
    bump = reinterpret_cast<char*>(arena_base + start);
    nblocks = 0; block_seq = 0; live_blocks = 0; live_bytes = 0;
    for (auto& f : freelist) f = nullptr;
    for (auto& f : freecount) f = 0;
    hc = h;
    heap_rng = prng { h.seed };
    if (hc.layout == 2) bump_down = reinterpret_cast<char*>(arena_base + race_window);
    std::set_terminate(on_terminate);
    atexit(on_exit_called);
    struct sigaction sa {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP }) sigaction(s, &sa, nullptr);
    alarm(120); // backstop only: a run that hangs outside of instrumented code
}

void end_child() {
    finish_stats();
    rep->status = 1;
    _exit(0);
}

unsigned char* coverage_map() { return coverage; }

std::string symbolize(void* const* frames, int n, std::size_t limit) {
    std::string cmd = "addr2line -Cfpe /proc/" + std::to_string(getpid()) + "/exe";
    for (int i = 0; i < n && static_cast<std::size_t>(i) < limit; ++i) { char b[32]; snprintf(b, sizeof b, " %p", frames[i]); cmd += b; }
    std::string r {};
    if (n == 0) return r;
    cmd += " 2>/dev/null";
    if (FILE* f = popen(cmd.c_str(), "r")) {
        char b[1024];
        while (fgets(b, sizeof b, f)) { std::string l { b }; if (l.size() > 200) l = l.substr(0, 200) + "\n"; r += "    " + l; }
        pclose(f);
    }
    return r;
}

// ---------------------------------------------------------------- blocking primitives

static void block_on(bool (*ready)(void*), void* arg, char const* what) {
    int idle = 0;
    while (!ready(arg)) {
        if (!cur) { fprintf(stderr, "blocked outside of a thread\n"); _exit(99); }
        ctl* o = round_robin();
        if (!o || ++idle > 5000) violation("deadlock", what);
        int a = cur->armed; cur->armed = 0;
        switch_to(*o, 0xB10C);
        cur->armed = a;
    }
}

} // namespace rt

using namespace rt;

extern "C" {

#define PC reinterpret_cast<u64>(__builtin_return_address(0))

void __sanitizer_cov_trace_pc() {
    ctl* c = cur;
    if (!c || !c->armed) return;
    u64 pc = PC;
    coverage[(pc * 0x9E3779B97F4A7C15ULL) >> 48U] = 1;
    point(*c, pc);
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* p) { mem(p, N, false, PC); } \
void __tsan_write##N(void* p) { mem(p, N, true, PC); } \
void __tsan_unaligned_read##N(void* p) { mem(p, N, false, PC); } \
void __tsan_unaligned_write##N(void* p) { mem(p, N, true, PC); } \
void __tsan_volatile_read##N(void* p) { mem(p, N, false, PC); } \
void __tsan_volatile_write##N(void* p) { mem(p, N, true, PC); } \
void __tsan_unaligned_volatile_read##N(void* p) { mem(p, N, false, PC); } \
void __tsan_unaligned_volatile_write##N(void* p) { mem(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { mem(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { mem(p, static_cast<unsigned>(n), false, PC); }
void __tsan_write_range(void* p, unsigned long n) { mem(p, static_cast<unsigned>(n), true, PC); }

// block operations (also those inside of the standard library)
static inline void range(void const* p, std::size_t n, bool write, u64 pc) {
    if (__builtin_expect(!*const_cast<bool const volatile*>(&in_run), 1)) return; // also before thread-local storage exists
    ctl* c = cur;
    if (!c || !c->armed || n == 0) return;
    u64 a = reinterpret_cast<u64>(p);
    if (is_stack(a)) return;
    check_valid(a, n, write);
    if (!race_mode) return;
    if (n > 65536) n = 65536;
    access(a, static_cast<unsigned>(n), write, pc);
}
void* __real_memcpy(void*, void const*, std::size_t);
void* __real_memmove(void*, void const*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_memcmp(void const*, void const*, std::size_t);
void* __wrap_memcpy(void* d, void const* s, std::size_t n) { range(s, n, false, PC); range(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, std::size_t n) { range(s, n, false, PC); range(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, std::size_t n) { range(d, n, true, PC); return __real_memset(d, v, n); }
int __wrap_memcmp(void const* a, void const* b, std::size_t n) { range(a, n, false, PC); range(b, n, false, PC); return __real_memcmp(a, b, n); }

static inline void apoint(u64 pc) { ctl* c = cur; if (c && c->armed) point(*c, pc); }
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// The runtime runs one thread at a time, so plain operations are atomic here.
#define AT(N, T) \
T __tsan_atomic##N##_load(T const volatile* a, int mo) { apoint(PC); if (acq(mo)) hb_acquire(const_cast<T const*>(a)); return *a; } \
void __tsan_atomic##N##_store(T volatile* a, T v, int mo) { apoint(PC); if (rel(mo)) hb_release(const_cast<T*>(a)); *a = v; } \
T __tsan_atomic##N##_exchange(T volatile* a, T v, int mo) { apoint(PC); if (acq(mo)) hb_acquire(const_cast<T*>(a)); if (rel(mo)) hb_release(const_cast<T*>(a)); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(T volatile* a, T v, int mo) { apoint(PC); if (acq(mo)) hb_acquire(const_cast<T*>(a)); if (rel(mo)) hb_release(const_cast<T*>(a)); T o = *a; *a = static_cast<T>(o + v); return o; } \
T __tsan_atomic##N##_fetch_sub(T volatile* a, T v, int mo) { apoint(PC); if (acq(mo)) hb_acquire(const_cast<T*>(a)); if (rel(mo)) hb_release(const_cast<T*>(a)); T o = *a; *a = static_cast<T>(o - v); return o; } \
T __tsan_atomic##N##_fetch_and(T volatile* a, T v, int mo) { apoint(PC); if (acq(mo)) hb_acquire(const_cast<T*>(a)); if (rel(mo)) hb_release(const_cast<T*>(a)); T o = *a; *a = static_cast<T>(o & v); return o; } \
T __tsan_atomic##N##_fetch_or(T volatile* a, T v, int mo) { apoint(PC); if (acq(mo)) hb_acquire(const_cast<T*>(a)); if (rel(mo)) hb_release(const_cast<T*>(a)); T o = *a; *a = static_cast<T>(o | v); return o; } \
T __tsan_atomic##N##_fetch_xor(T volatile* a, T v, int mo) { apoint(PC); if (acq(mo)) hb_acquire(const_cast<T*>(a)); if (rel(mo)) hb_release(const_cast<T*>(a)); T o = *a; *a = static_cast<T>(o ^ v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(T volatile* a, T* e, T v, int mo, int fmo) { apoint(PC); T o = *a; bool ok = o == *e; int m = ok ? mo : fmo; if (acq(m)) hb_acquire(const_cast<T*>(a)); if (ok) { if (rel(m)) hb_release(const_cast<T*>(a)); *a = v; } else { *e = o; } return ok; } \
int __tsan_atomic##N##_compare_exchange_weak(T volatile* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(T volatile* a, T e, T v, int mo, int fmo) { T x = e; __tsan_atomic##N##_compare_exchange_strong(a, &x, v, mo, fmo); return x; }
AT(8, u8) AT(16, std::uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { apoint(PC); static int f; hb_acquire(&f); hb_release(&f); }
void __tsan_atomic_signal_fence(int) {}

// ---- one-time initialisation of function-local statics
static bool guard_ready(void* p) { auto* g = static_cast<volatile char*>(p); return g[0] != 0 || g[1] == 0; }
int __cxa_guard_acquire(long long* gp) {
    auto* g = reinterpret_cast<volatile char*>(gp);
    if (g[0] != 0) { hb_acquire(gp); return 0; }
    if (g[1] != 0 && (!cur || g[2] == cur->id + 1)) { if (rt::rep && cur) violation("deadlock", "recursive initialisation of a static variable"); abort(); }
    block_on(guard_ready, gp, "deadlock in the initialisation of a static variable");
    if (g[0] != 0) { hb_acquire(gp); return 0; }
    hb_acquire(gp);
    g[1] = 1; g[2] = static_cast<char>(cur ? cur->id + 1 : 0);
    return 1;
}
void __cxa_guard_release(long long* gp) { auto* g = reinterpret_cast<volatile char*>(gp); hb_release(gp); g[0] = 1; g[1] = 0; }
void __cxa_guard_abort(long long* gp) { auto* g = reinterpret_cast<volatile char*>(gp); hb_release(gp); g[0] = 0; g[1] = 0; }

static bool once_ready(void* p) { return *static_cast<volatile int*>(p) != 1; }
int __wrap_pthread_once(pthread_once_t* ctl_, void (*fn)()) {
    auto* s = reinterpret_cast<volatile int*>(ctl_);
    if (*s == 2) { hb_acquire(ctl_); return 0; }
    if (*s == 1) { block_on(once_ready, ctl_, "deadlock in call_once"); if (*s == 2) { hb_acquire(ctl_); return 0; } }
    hb_acquire(ctl_);
    *s = 1;
    try { fn(); } catch (...) { hb_release(ctl_); *s = 0; throw; }
    hb_release(ctl_);
    *s = 2;
    return 0;
}
int __real_pthread_mutex_trylock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __real_pthread_mutex_lock(pthread_mutex_t* m);
static bool mutex_ready(void* m) { return __real_pthread_mutex_trylock(static_cast<pthread_mutex_t*>(m)) == 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!cur) return __real_pthread_mutex_lock(m);
    apoint(PC);
    block_on(mutex_ready, m, "deadlock on a mutex");
    hb_acquire(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { apoint(PC); int r = __real_pthread_mutex_trylock(m); if (r == 0) hb_acquire(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { hb_release(m); int r = __real_pthread_mutex_unlock(m); apoint(PC); return r; }
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_unlock(pthread_rwlock_t* m);
static bool rd_ready(void* m) { return __real_pthread_rwlock_tryrdlock(static_cast<pthread_rwlock_t*>(m)) == 0; }
static bool wr_ready(void* m) { return __real_pthread_rwlock_trywrlock(static_cast<pthread_rwlock_t*>(m)) == 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { apoint(PC); block_on(rd_ready, m, "deadlock on a lock"); hb_acquire(m); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { apoint(PC); block_on(wr_ready, m, "deadlock on a lock"); hb_acquire(m); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { apoint(PC); int r = __real_pthread_rwlock_tryrdlock(m); if (r == 0) hb_acquire(m); return r; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { apoint(PC); int r = __real_pthread_rwlock_trywrlock(m); if (r == 0) hb_acquire(m); return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { hb_release(m); int r = __real_pthread_rwlock_unlock(m); apoint(PC); return r; }
// condition variables: every wait may wake spuriously
int __wrap_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) {
    __wrap_pthread_mutex_unlock(m);
    if (cur) { if (ctl* o = round_robin()) { int a = cur->armed; cur->armed = 0; switch_to(*o, 0xC0DE); cur->armed = a; } }
    static int fruitless; if (++fruitless > 100000) violation("deadlock", "waits on a condition forever");
    return __wrap_pthread_mutex_lock(m);
}
int __wrap_sched_yield() { if (cur) { if (ctl* o = round_robin()) { int a = cur->armed; cur->armed = 0; switch_to(*o, 0x51ED); cur->armed = a; } } return 0; }

// the C++ runtime itself may need memory to remember destructors of static objects: it never gives that back
int __real___cxa_atexit(void (*fn)(void*), void* arg, void* dso);
int __real___cxa_thread_atexit(void (*fn)(void*), void* arg, void* dso);
int __wrap___cxa_atexit(void (*fn)(void*), void* arg, void* dso) { rt::disarmed d {}; return __real___cxa_atexit(fn, arg, dso); }
int __wrap___cxa_thread_atexit(void (*fn)(void*), void* arg, void* dso) { rt::disarmed d {}; return __real___cxa_thread_atexit(fn, arg, dso); }

// ---- allocation functions
void* malloc(std::size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } void* p = heap_alloc(n, 16, false); if (!p) errno = ENOMEM; return p; }
void free(void* p) { heap_free(p); }
void* calloc(std::size_t a, std::size_t b) {
    std::size_t n;
    if (__builtin_mul_overflow(a, b, &n) || alloc_fails(n)) { errno = ENOMEM; return nullptr; }
    void* p = heap_alloc(n, 16, true); if (!p) errno = ENOMEM; return p;
}
void* realloc(void* p, std::size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
    void* q = heap_alloc(n, 16, false);
    if (!q) { errno = ENOMEM; return nullptr; }
    hdr* h = static_cast<hdr*>(p) - 1;
    __real_memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p);
    return q;
}
void* memalign(std::size_t al, std::size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } return heap_alloc(n, al, false); }
void* aligned_alloc(std::size_t al, std::size_t n) { return memalign(al, n); }
int posix_memalign(void** p, std::size_t al, std::size_t n) { void* q = memalign(al, n); if (!q) return ENOMEM; *p = q; return 0; }
void* valloc(std::size_t n) { return memalign(4096, n); }
void* pvalloc(std::size_t n) { return memalign(4096, n); }
std::size_t malloc_usable_size(void* p) { return p ? (static_cast<hdr*>(p) - 1)->size : 0; }

} // extern "C"

void* operator new(std::size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return malloc(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return malloc(n); }
void* operator new(std::size_t n, std::align_val_t a) { void* p = memalign(static_cast<std::size_t>(a), n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n, std::align_val_t a) { void* p = memalign(static_cast<std::size_t>(a), n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { heap_free(p); }
void operator delete[](void* p) noexcept { heap_free(p); }
void operator delete(void* p, std::size_t) noexcept { heap_free(p); }
void operator delete[](void* p, std::size_t) noexcept { heap_free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { heap_free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { heap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { heap_free(p); }
