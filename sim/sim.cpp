// Deterministic simulation runtime: scheduler, virtual time, pthread / clock /
// file seams and the TSan-ABI runtime (preemption points at atomics and plain
// accesses, happens-before race detection, heap use-after-free / overflow).
//
// This file is compiled WITHOUT instrumentation.
#include "sim_internal.hpp"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/select.h>
#include <poll.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include <new>
#include <initializer_list>
#include <sys/sysinfo.h>

namespace sim {

const char *const fault_names[F_COUNT] = {
    "spurious_wakeup", "eintr", "clock_jump_forward", "clock_jump_backward", "wall_clock_set_forward", "thread_stall", "preemption", "memory_preemption",
    "net_loss", "net_duplicate", "net_reorder", "net_delay", "net_partition", "net_corrupt", "net_truncate", "net_forge",
    "crash_restart", "disconnect",
    "short_read", "short_write", "io_error", "no_space", "torn_write", "open_fail", "bit_flip",
    "time_skew", "slow_node"};

RunResult *R = nullptr;           // shared with the driver
bool active = false;              // simulation running in this process

// ------------------------------------------------------------------ PRNG --
static inline uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t prng[STREAM_COUNT + 1];
static inline uint64_t rnd(unsigned s) { return splitmix(prng[s]); }
static inline uint32_t rndn(unsigned s, uint32_t n) { return n <= 1 ? 0 : uint32_t((rnd(s) >> 11) % n); }

// --------------------------------------------------------------- choices --
static bool replaying = false;
static uint64_t stream_pos[STREAM_COUNT];
static const Choice *rp_list[STREAM_COUNT];
static uint32_t rp_count[STREAM_COUNT], rp_next[STREAM_COUNT];

static inline void record(unsigned s, uint64_t idx, uint32_t v) {
    if (!v) return;
    auto &n = R->nchoices[s];
    if (n < R->cap) R->choices(s)[n] = Choice{uint32_t(idx), v};
    ++n;
}
static inline bool replay_value(unsigned s, uint64_t idx, uint32_t &v) {
    if (!replaying) return false;
    v = 0;
    auto &k = rp_next[s];
    while (k < rp_count[s] && rp_list[s][k].idx < idx) ++k;
    if (k < rp_count[s] && rp_list[s][k].idx == idx) v = rp_list[s][k].val;
    return true;
}
static inline void hmix(uint64_t v) { R->hash = (R->hash ^ v) * 0x100000001B3ull; R->hash ^= R->hash >> 29; }

struct Config { // swarm configuration of the generator; not needed for replay
    uint32_t strategy, p_switch, pct_depth, mem_preempt; uint64_t fault_mask; uint32_t fault_scale, stall;
} cfg;
static bool faults_off = false;

uint32_t pick_on(Stream s, uint32_t n) {
    uint64_t idx = stream_pos[s]++;
    uint32_t v;
    if (!replay_value(s, idx, v)) v = rndn(s, n);
    if (n == 0) v = 0; else if (v >= n) v %= n;
    record(s, idx, v);
    if (s == STREAM_WORK || s == STREAM_NET) hmix(0xA000 + v);
    return v;
}
uint32_t pick(uint32_t n) { return pick_on(STREAM_WORK, n); }

uint32_t fault_mag(Fault kind, uint32_t num, uint32_t den, uint32_t max) {
    if (faults_off || !active) return 0;
    uint64_t idx = stream_pos[STREAM_FAULT]++;
    uint32_t v;
    if (!replay_value(STREAM_FAULT, idx, v)) {
        v = 0;
        if (cfg.fault_mask >> kind & 1) {
            uint64_t r = rnd(STREAM_FAULT);
            if ((r >> 20) % den < uint64_t(num) * cfg.fault_scale / 100) v = 1 + rndn(STREAM_FAULT, max);
        }
    }
    if (v > max) v = 1 + (v - 1) % max;
    record(STREAM_FAULT, idx, v);
    if (v) { ++R->faults[kind]; hmix(0xF000 + kind); }
    return v;
}
bool fault(Fault kind, uint32_t num, uint32_t den) { return fault_mag(kind, num, den, 1) != 0; }
void stop_faults() { faults_off = true; }
bool faults_stopped() { return faults_off; }

// --------------------------------------------------------------- results --
static void copy_msg(char *dst, size_t cap, const char *fmt, va_list ap) { vsnprintf(dst, cap, fmt, ap); }
[[noreturn]] void child_exit(int code) {
    active = false;
    _exit(code);
}
void set_violation(const char *kind, const char *msg) {
    if (R->status != 0) return;
    R->status = 1;
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    snprintf(R->msg, sizeof R->msg, "%s", msg);
}
static bool diag = false;          // diagnostic replay
static void print_stack(uintptr_t *fp) {
    for (int i = 0; i < 40 && fp; ++i) {
        uintptr_t pc = fp[1]; Dl_info d{};
        if (!dladdr((void *)pc, &d)) break;
        dprintf(2, "  #%d %s+0x%zx (0x%zx)\n", i, d.dli_sname ? d.dli_sname : "?", size_t(pc - uintptr_t(d.dli_saddr)), size_t(pc - uintptr_t(d.dli_fbase)));
        if ((uintptr_t *)fp[0] <= fp || (char *)fp[0] > (char *)fp + (1 << 20)) break;
        fp = (uintptr_t *)fp[0];
    }
}
void fail(const char *kind, const char *fmt, ...) {
    if (diag && getenv("SIM_STACK")) print_stack((uintptr_t *)__builtin_frame_address(0));
    char buf[1500];
    va_list ap; va_start(ap, fmt); copy_msg(buf, sizeof buf, fmt, ap); va_end(ap);
    set_violation(kind, buf);
    child_exit(1);
}
void probe(const char *name) {
    for (unsigned i = 0; i < MAX_PROBES; ++i) {
        if (!R->probes[i].name[0]) { snprintf(R->probes[i].name, sizeof R->probes[i].name, "%s", name); }
        if (!strncmp(R->probes[i].name, name, sizeof R->probes[i].name - 1)) { ++R->probes[i].n; return; }
    }
}
void count_check(uint64_t n) { R->checks += n; }
void state(uint64_t h) { if (R->nstates < MAX_STATES) R->states[R->nstates++] = h; }
void mix(uint64_t v) { hmix(v); }
void tracef(const char *fmt, ...) {
    if (R->trace_len + 200 >= sizeof R->trace) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(R->trace + R->trace_len, 190, fmt, ap);
    va_end(ap);
    if (n > 189) n = 189;
    if (n > 0) { R->trace_len += unsigned(n); R->trace[R->trace_len++] = '\n'; }
}

// --------------------------------------------------------------- threads --
enum State : uint8_t { RUNNABLE, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_RW, B_FUTEX, B_ONCE, FINISHED };
struct VC { uint32_t c[MAXT]; };
struct Thread {
    int id; State st; const void *obj; bool timed; uint64_t wake; bool woken; // woken: not by timeout
    int futex; void *(*fn)(void *); void *arg; void *ret; bool detached, joined;
    VC vc; VC acq_pending; VC rel_fence; bool has_rel_fence, has_acq;
    uint32_t prio; uint64_t stalled_until; uint64_t mem_countdown; uint64_t last_yield; unsigned run_len; bool rw_write;
    uint64_t cond_seq;
};
static Thread T[MAXT];
static unsigned nthreads = 0, nlive = 0;
static int cur = -1;
static thread_local int my_id = -1;
static uint64_t vnow = 1000000000ull; // virtual monotonic ns
static int64_t rt_offset = 0;
static uint64_t budget = 4000000, fair_after = 2000000;
static uint64_t min_wake = UINT64_MAX;
static uint32_t op_cost = 200;
static bool time_faults = false, stalls_on = false, races_on = true, io_faults = false, io_hard = false;
static pthread_key_t end_key;
static uint64_t cond_seq_counter = 0;

static inline int fut_wait(int *a, int v) { return int(syscall_raw(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0)); }
static inline int fut_wake(int *a) { return int(syscall_raw(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0)); }

long syscall_raw(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void give(int t) { cur = t; __atomic_store_n(&T[t].futex, 1, __ATOMIC_SEQ_CST); fut_wake(&T[t].futex); }
static void wait_token(int t) {
    for (;;) {
        int v = __atomic_exchange_n(&T[t].futex, 0, __ATOMIC_SEQ_CST);
        if (v) return;
        fut_wait(&T[t].futex, 0);
    }
}

uint64_t now_ns() { return vnow; }
void advance_ns(uint64_t ns) { vnow += ns; }
int self() { return my_id; }
uint64_t tick() { static uint64_t t = 0; return ++t; }
unsigned live_threads() { return nlive; }
bool races_enabled() { return races_on; }
void set_step_budget(uint64_t s) { budget = s; fair_after = s / 2; }
void set_realtime_offset(int64_t ns) { rt_offset = ns; }
void enable_time_faults(bool on) { time_faults = on; }
void enable_stalls(bool on) { stalls_on = on; }
void track_races(bool on) { races_on = on; }
void enable_io_faults(bool on, bool hard) { io_faults = on; io_hard = hard; }

static void wake_timers() {
    if (vnow < min_wake) return;
    min_wake = UINT64_MAX;
    for (unsigned i = 0; i < nthreads; ++i) {
        auto &t = T[i];
        if (t.st != RUNNABLE && t.st != FINISHED && t.timed) {
            if (t.wake <= vnow) { t.st = RUNNABLE; t.timed = false; t.woken = false; t.obj = nullptr; }
            else if (t.wake < min_wake) min_wake = t.wake;
        }
        if (t.st == RUNNABLE && t.stalled_until > vnow && t.stalled_until < min_wake) min_wake = t.stalled_until;
    }
}
static inline bool eligible(const Thread &t) { return t.st == RUNNABLE && t.stalled_until <= vnow; }
static unsigned collect(int from, int *out) { // eligible threads, `from` first, then by id
    unsigned n = 0;
    for (unsigned k = 0; k < nthreads; ++k) {
        unsigned i = (unsigned(from) + k) % nthreads;
        if (eligible(T[i])) out[n++] = int(i);
    }
    return n;
}
static const char *state_name(State s) { static const char *n[] = {"runnable", "mutex", "cond", "join", "sleep", "rwlock", "futex", "once", "finished"}; return n[s]; }
[[noreturn]] static void report_stuck(const char *kind) {
    char buf[1000]; int o = 0;
    o += snprintf(buf + o, sizeof buf - size_t(o), "%s after %llu scheduling points at t=%.6fs:", kind, (unsigned long long)R->steps, double(vnow) / 1e9);
    for (unsigned i = 0; i < nthreads && o < 900; ++i)
        if (T[i].st != FINISHED) o += snprintf(buf + o, sizeof buf - size_t(o), " thread%u=%s", i, state_name(T[i].st));
    fail(kind, "%s", buf);
}
static bool fair_mode() { return faults_off || R->steps > fair_after; }

// Strategy decision: index into the candidate list.  0 is the default: the
// current thread if it can go on, the next one in round-robin order after a
// yield or a long uninterrupted run, the first one if the current is blocked.
static uint32_t decide(const int *cand, unsigned n, int cur_pos) {
    if (n <= 1) return 0;
    uint64_t idx = stream_pos[STREAM_SCHED]++;
    uint32_t v;
    if (!replay_value(STREAM_SCHED, idx, v)) {
        v = 0;
        if (fair_mode()) {
            if (cur_pos < 0) v = rndn(STREAM_SCHED, n);
            else if (cur_pos > 0) v = rndn(STREAM_SCHED, n - 1);
            else if (rndn(STREAM_SCHED, 8) == 0) v = rndn(STREAM_SCHED, n);
        } else if (cfg.strategy == 1) { // PCT: highest priority eligible
            if (cur_pos >= 0) {
                auto &c = T[cand[cur_pos]];
                if (cfg.pct_depth && rndn(STREAM_SCHED, 400) < cfg.pct_depth) c.prio = rndn(STREAM_SCHED, 50);
                if (cur_pos > 0) c.prio = rndn(STREAM_SCHED, 100);
            }
            unsigned best = 0;
            for (unsigned k = 1; k < n; ++k) if (T[cand[k]].prio > T[cand[best]].prio) best = k;
            if (cur_pos > 0 && best == unsigned(cur_pos)) best = rndn(STREAM_SCHED, n - 1);
            v = best;
        } else {
            if (cur_pos < 0) v = rndn(STREAM_SCHED, n);
            else if (cur_pos > 0) v = rndn(STREAM_SCHED, n - 1);
            else if (rndn(STREAM_SCHED, 1000) < cfg.p_switch) v = 1 + rndn(STREAM_SCHED, n - 1);
        }
    }
    v %= n;
    record(STREAM_SCHED, idx, v);
    return v;
}
static void check_budget() {
    if (R->steps > budget) report_stuck("no-progress");
}
static void switch_to(int t) {
    int me = my_id;
    if (t == me) { cur = me; return; }
    ++R->switches;
    R->sched_hash = (R->sched_hash ^ (uint64_t(t) + 1 + (R->steps << 8))) * 0x100000001B3ull;
    hmix(0x5000 + uint64_t(t));
    T[me].run_len = 0;
    give(t);
    if (T[me].st != FINISHED) wait_token(me);
}
// Blocks until some thread (maybe this one) is eligible, and gives it the token.
static void pass_on(bool finishing = false) {
    int cand[MAXT];
    for (;;) {
        wake_timers();
        unsigned n = collect(my_id, cand);
        if (n) {
            uint32_t v = decide(cand, n, cand[0] == my_id ? 0 : -1);
            if (finishing) {
                ++R->switches; R->sched_hash = (R->sched_hash ^ (uint64_t(cand[v]) + 77)) * 0x100000001B3ull; hmix(0x5000 + uint64_t(cand[v]));
                give(cand[v]); return;
            }
            switch_to(cand[v]);
            return;
        }
        uint64_t w = UINT64_MAX;
        for (unsigned i = 0; i < nthreads; ++i) {
            auto &t = T[i];
            if (t.st == FINISHED) continue;
            if (t.st == RUNNABLE) { if (t.stalled_until > vnow && t.stalled_until < w) w = t.stalled_until; }
            else if (t.timed && t.wake < w) w = t.wake;
        }
        if (w == UINT64_MAX) { if (finishing && nlive == 0) return; report_stuck("deadlock"); }
        if (w > vnow) vnow = w;
        min_wake = 0;
        if (++R->steps, R->steps > budget) report_stuck("no-progress");
    }
}
static inline bool in_sim() { return active && my_id >= 0 && cur == my_id; }

static bool store_pending = false; static void resolve_store_now();
static inline void resolve_store() { if (__builtin_expect(store_pending, 0)) resolve_store_now(); }
static void point(unsigned kind, bool yielding = false) {
    resolve_store();
    if (!in_sim()) return;
    auto &me = T[my_id];
    ++R->steps; ++me.run_len;
    vnow += op_cost;
    hmix(uint64_t(kind) << 8 | unsigned(my_id));
    check_budget();
    if (vnow >= min_wake) wake_timers();
    if (stalls_on && nthreads > 1 && !faults_off) {
        if (uint32_t m = fault_mag(F_THREAD_STALL, 1, 500, 16)) {
            me.stalled_until = vnow + (1000ull << m); // 2us .. 65ms
            if (me.stalled_until < min_wake) min_wake = me.stalled_until;
            int cand[MAXT]; unsigned n = collect(my_id, cand);
            if (!n) me.stalled_until = 0; // everybody else waits: stalling would only move time
        }
    }
    if (me.stalled_until > vnow) { pass_on(); }
    else if (nlive > 1) {
        int cand[MAXT]; unsigned n = collect(my_id, cand);
        if (n > 1) {
            bool rot = yielding || me.run_len > 3000;
            if (rot) { for (unsigned k = 0; k + 1 < n; ++k) cand[k] = cand[k + 1]; cand[n - 1] = my_id; me.run_len = 0; }
            uint32_t v = decide(cand, n, rot ? int(n - 1) : 0);
            if (cand[v] != my_id) { if (!yielding) ++R->faults[F_PREEMPT]; switch_to(cand[v]); }
        } else if (yielding) { // nobody else: let time flow
            vnow += op_cost * 10;
        }
    }
    // Draw a plain-access preemption countdown now and then.
    if (cfg.mem_preempt || replaying) {
        uint64_t idx = stream_pos[STREAM_MEM]++;
        uint32_t v;
        if (!replay_value(STREAM_MEM, idx, v)) { v = 0; if (!faults_off && cfg.mem_preempt && rndn(STREAM_MEM, 1000) < cfg.mem_preempt) v = 1 + rndn(STREAM_MEM, 1u << (2 + rndn(STREAM_MEM, 9))); }
        record(STREAM_MEM, idx, v);
        if (v) T[my_id].mem_countdown = v;
    } else ++stream_pos[STREAM_MEM];
}
void yield() { point(1, true); }
static void block_on(State st, const void *obj, bool timed = false, uint64_t wake = 0) {
    auto &me = T[my_id];
    me.st = st; me.obj = obj; me.timed = timed; me.wake = wake; me.woken = false;
    if (timed && wake < min_wake) min_wake = wake;
    pass_on();
}
void sleep_ns(uint64_t ns) {
    if (!in_sim()) return;
    point(2);
    block_on(B_SLEEP, nullptr, true, vnow + ns);
}

// --------------------------------------------------- small address tables --
static void mark_sync(uintptr_t a);
template<typename V, bool Sync = false> struct AddrMap {
    struct E { uintptr_t k; V v; bool used; };
    E *tab = nullptr; size_t cap = 0, n = 0;
    V *find(const void *p) {
        if (!cap) return nullptr;
        uintptr_t k = uintptr_t(p); size_t h = (k * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
        while (tab[h].used) { if (tab[h].k == k) return &tab[h].v; h = (h + 1) & (cap - 1); }
        return nullptr;
    }
    V &get(const void *p) {
        if (Sync) mark_sync(uintptr_t(p));
        if (auto *v = find(p)) return *v;
        if ((n + 1) * 2 > cap) grow();
        uintptr_t k = uintptr_t(p); size_t h = (k * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
        while (tab[h].used) h = (h + 1) & (cap - 1);
        tab[h].used = true; tab[h].k = k; memset(&tab[h].v, 0, sizeof(V)); ++n;
        return tab[h].v;
    }
    void grow() {
        size_t nc = cap ? cap * 2 : 256; E *nt = (E *)calloc(nc, sizeof(E));
        for (size_t i = 0; i < cap; ++i) if (tab[i].used) { size_t h = (tab[i].k * 0x9E3779B97F4A7C15ull) >> 20 & (nc - 1); while (nt[h].used) h = (h + 1) & (nc - 1); nt[h] = tab[i]; }
        free(tab); tab = nt; cap = nc;
    }
};
struct Mutex { int owner1; unsigned count; VC vc; };
struct RW { int writer1; unsigned readers; VC vc; VC rvc; };
struct Once { int st; VC vc; };
static AddrMap<Mutex, true> mutexes; static AddrMap<RW, true> rws; static AddrMap<Once, true> onces; static AddrMap<VC, true> atomics;

static inline void vc_join(VC &a, const VC &b) { for (unsigned i = 0; i < nthreads; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void acquire_vc(const VC &v) { resolve_store(); vc_join(T[my_id].vc, v); }
static inline void release_to(VC &v) { resolve_store(); vc_join(v, T[my_id].vc); ++T[my_id].vc.c[my_id]; }
static void wake_obj(State st, const void *obj) {
    for (unsigned i = 0; i < nthreads; ++i) if (T[i].st == st && T[i].obj == obj) { T[i].st = RUNNABLE; T[i].woken = true; T[i].timed = false; T[i].obj = nullptr; }
}

// ----------------------------------------------------------------- mutex --
static bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void mtx_acquire(pthread_mutex_t *m) {
    for (;;) {
        auto &s = mutexes.get(m);
        if (!s.owner1) { s.owner1 = my_id + 1; s.count = 1; acquire_vc(s.vc); return; }
        if (s.owner1 == my_id + 1 && is_recursive(m)) { ++s.count; return; }
        block_on(B_MUTEX, m);
    }
}
static void mtx_release(pthread_mutex_t *m) {
    auto &s = mutexes.get(m);
    if (s.owner1 != my_id + 1) fail("mutex-misuse", "unlock of a mutex not held by the calling thread %d (owner %d)", my_id, s.owner1 - 1);
    if (--s.count) return;
    s.owner1 = 0;
    release_to(s.vc);
    wake_obj(B_MUTEX, m);
}

// ------------------------------------------------------------- thread end --
static void finish_current() {
    auto &me = T[my_id];
    me.st = FINISHED; --nlive;
    hmix(0xE0D0 + uint64_t(my_id));
    wake_obj(B_JOIN, &me);
    pass_on(true);
    my_id = -1;
}
static void end_key_dtor(void *p) {
    // TLS key destructors run after C++ thread_local destructors.
    (void)p;
    if (active && my_id >= 0) finish_current();
}
static void *thread_entry(void *p) {
    int id = int(intptr_t(p));
    stack_t ss{}; ss.ss_size = 1 << 15; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    wait_token(id);
    my_id = id;
    pthread_setspecific(end_key, (void *)1);
    T[id].ret = T[id].fn(T[id].arg);
    return T[id].ret;
}

// ------------------------------------------------------- memory shadowing --
struct Cell { uint32_t wclk; uint8_t wtid, wmask, flags, rnext; struct { uint32_t clk; uint8_t tid, mask; } r[3]; };
enum { C_FREED = 1, C_REDZONE = 2, C_SYNC = 8 };
// Simulated heap: own arena at a fixed address so that addresses do not depend
// on the process; its shadow is direct-mapped.
static constexpr uintptr_t ARENA = 0x500000000000ull; static constexpr size_t ARENA_SIZE = size_t(8) << 30;
static constexpr uintptr_t ARENA_SHADOW = 0x510000000000ull;
static bool arena_ok = false; static uintptr_t arena_top = ARENA;
struct Page { Cell c[512]; };
static AddrMap<Page *> pages;
struct Tlb { uintptr_t pg; Page *p; };
static Tlb tlb[1024];
static inline Page *page_of(uintptr_t a) {
    uintptr_t pg = a >> 12; auto &t = tlb[pg & 1023];
    if (t.pg == pg && t.p) return t.p;
    Page *&p = pages.get((void *)(pg << 12));
    if (!p) { p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { p = nullptr; fail("harness", "shadow mmap failed"); } }
    t.pg = pg; t.p = p;
    return p;
}
static inline Cell &cell_of(uintptr_t a) { if (a - ARENA < ARENA_SIZE) return ((Cell *)ARENA_SHADOW)[(a - ARENA) >> 3]; return page_of(a)->c[(a & 4095) >> 3]; }
static void mark_sync(uintptr_t a) { if (a - ARENA < ARENA_SIZE) cell_of(a).flags |= C_SYNC; }
static void forget_sync(void *p) {
    if (auto *v = atomics.find(p)) memset(v, 0, sizeof *v);
    if (auto *v = mutexes.find(p)) memset(v, 0, sizeof *v);
    if (auto *v = rws.find(p)) memset(v, 0, sizeof *v);
    if (auto *v = onces.find(p)) memset(v, 0, sizeof *v);
}
static void shadow_set(uintptr_t a, size_t n, uint8_t flags) {
    uintptr_t e = a + n;
    for (uintptr_t x = a & ~uintptr_t(7); x < e; x += 8) {
        Cell &c = cell_of(x);
        if (c.flags & C_SYNC) for (unsigned k = 0; k < 8; ++k) forget_sync((void *)(x + k));
        memset(&c, 0, sizeof c); c.flags = flags;
    }
}
static const char *where(uintptr_t pc, char *buf, size_t n) {
    Dl_info i{};
    if (dladdr((void *)pc, &i) && i.dli_sname) snprintf(buf, n, "%s+0x%zx", i.dli_sname, size_t(pc - uintptr_t(i.dli_saddr)));
    else if (i.dli_fbase) snprintf(buf, n, "@0x%zx", size_t(pc - uintptr_t(i.dli_fbase)));
    else snprintf(buf, n, "?");
    return buf;
}
static AddrMap<uintptr_t> last_pc; // only in diagnostic replays
[[noreturn]] static void report_race(const char *what, uintptr_t a, int other, uintptr_t pc) {
    char w1[300], w2[300] = "?";
    if (diag) if (auto *p = last_pc.find((void *)(a & ~uintptr_t(7)))) where(*p, w2, sizeof w2);
    R->pc[0] = pc; if (diag) if (auto *p = last_pc.find((void *)(a & ~uintptr_t(7)))) R->pc[1] = *p;
    Dl_info i{}; if (dladdr((void *)&report_race, &i)) R->base = uintptr_t(i.dli_fbase);
    fail("data-race", "%s by thread %d at %s not ordered with earlier access by thread %d (%s)", what, my_id, where(pc, w1, sizeof w1), other, w2);
}
// Mode for whole-engine runs: a store that leaves memory as it was counts as a read.  The
// engine's solver adds zero to the velocities of immovable bodies from several threads.
static bool silent_stores = false;
static struct { uintptr_t a, pc; unsigned size; uint8_t old[64]; } pend;
void ignore_silent_stores(bool on) { silent_stores = on; }
static inline void race_logic(Cell &c, uintptr_t x, uint8_t mask, bool write, uintptr_t pc, Thread &me) {
    if (c.wmask & mask && c.wtid != my_id && c.wclk > me.vc.c[c.wtid]) report_race(write ? "write" : "read", x, c.wtid, pc);
    uint32_t clk = me.vc.c[my_id];
    if (write) {
        for (auto &r : c.r) if (r.mask & mask && r.tid != my_id && r.clk > me.vc.c[r.tid]) report_race("write", x, r.tid, pc);
        if (c.wtid == my_id && c.wclk == clk) c.wmask |= mask;
        else { c.wtid = uint8_t(my_id); c.wclk = clk; c.wmask = mask; }
        for (auto &r : c.r) r.mask = uint8_t(r.mask & ~mask);
    } else {
        int slot = -1;
        for (int k = 0; k < 3; ++k) if (c.r[k].mask && c.r[k].tid == my_id && (c.r[k].clk == clk || !(c.r[k].mask & ~mask))) { slot = k; break; } // bytes of one cell may belong to different objects
        if (slot < 0) for (int k = 0; k < 3; ++k) if (!c.r[k].mask || c.r[k].clk <= me.vc.c[c.r[k].tid]) { slot = k; c.r[k].mask = 0; break; }
        if (slot < 0) { slot = c.rnext; c.rnext = uint8_t((c.rnext + 1) % 3); c.r[slot].mask = 0; }
        c.r[slot].tid = uint8_t(my_id); c.r[slot].clk = clk; c.r[slot].mask |= mask;
    }
    if (diag) last_pc.get((void *)x) = pc;
}

static void resolve_store_now() {
    store_pending = false; if (!active || my_id < 0) return;
    bool write = memcmp(pend.old, (void *)pend.a, pend.size) != 0; uintptr_t a = pend.a, e = a + pend.size;
    for (uintptr_t x = a & ~uintptr_t(7); x < e; x += 8) {
        unsigned lo = x < a ? unsigned(a - x) : 0, hi = e - x >= 8 ? 8 : unsigned(e - x);
        race_logic(cell_of(x), x, uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1)), write, pend.pc, T[my_id]);
    }
}
static inline void mem_access(uintptr_t a, unsigned size, bool write, uintptr_t pc) {
    if (!active || my_id < 0) return;
    resolve_store();
    const bool defer = silent_stores && write && races_on;
    auto &me = T[my_id];
    if (me.mem_countdown && --me.mem_countdown == 0 && cur == my_id) {
        ++R->faults[F_MEM_PREEMPT];
        point(3, true);
    }
    uintptr_t e = a + size;
    for (uintptr_t x = a & ~uintptr_t(7); x < e; x += 8) {
        Cell &c = cell_of(x);
        unsigned lo = x < a ? unsigned(a - x) : 0, hi = e - x >= 8 ? 8 : unsigned(e - x);
        uint8_t mask = uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1));
        if (__builtin_expect(c.flags, 0)) {
            char w[300];
            if (c.flags & C_FREED) { R->pc[0] = pc; fail("use-after-free", "%s of %u bytes in freed heap memory at %s", write ? "write" : "read", size, where(pc, w, sizeof w)); }
            if (c.flags & C_REDZONE) { R->pc[0] = pc; fail("heap-overflow", "%s of %u bytes past a heap block at %s", write ? "write" : "read", size, where(pc, w, sizeof w)); }
            if (c.flags >> 4 && hi > unsigned(c.flags >> 4)) { R->pc[0] = pc; fail("heap-overflow", "%s of %u bytes past the end of a heap block at %s", write ? "write" : "read", size, where(pc, w, sizeof w)); }
        }
        if (!races_on) continue;
        if (defer) continue;
        race_logic(c, x, mask, write, pc, me);
    }
    if (defer) { pend.a = a; pend.size = size; pend.pc = pc; memcpy(pend.old, (void *)a, size); store_pending = true; }
}
static void range_access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    while (n) { unsigned k = n > 64 ? 64 : unsigned(n); mem_access(a, k, write, pc); a += k; n -= k; }
}

// ------------------------------------------------------------------- heap --
struct Hdr { size_t size; uint64_t magic; void *raw; uint64_t cls; };
static constexpr uint64_t MAGIC = 0xA110CA7EDB10C5ull, DEADM = 0xDEADB10CDEADB10Cull;
static uint64_t heap_blocks = 0, heap_bytes = 0;
static constexpr unsigned QN = 4096;
static Hdr *quar[QN]; static unsigned quar_pos = 0;
uint64_t live_heap_blocks() { return heap_blocks; }
uint64_t live_heap_bytes() { return heap_bytes; }
static constexpr unsigned NCLS = 256;
static Hdr *freelist[NCLS];
static unsigned cls_of(size_t total, size_t &rounded) {
    if (total <= 1024) { unsigned c = unsigned((total + 15) / 16); rounded = size_t(c) * 16; return c; }
    unsigned b = 63u - unsigned(__builtin_clzll(total - 1)); // 2^b < total <= 2^(b+1)
    size_t step = size_t(1) << (b - 2); size_t k = (total - (size_t(1) << b) + step - 1) / step;
    rounded = (size_t(1) << b) + k * step;
    return 64 + (b - 9) * 4 + unsigned(k);
}
static void init_arena() {
    if (arena_ok) return;
    void *a = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *b = mmap((void *)ARENA_SHADOW, ARENA_SIZE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void *)ARENA || b != (void *)ARENA_SHADOW) { fprintf(stderr, "sim: cannot map the simulated heap\n"); _exit(3); }
    arena_ok = true;
}
static size_t alloc_limit = size_t(1) << 30;
void set_alloc_limit(size_t n) { alloc_limit = n; }
static bool shadow_on = true;  // false in builds without memory instrumentation
void set_heap_shadow(bool on) { shadow_on = on; }
bool heap_shadow() { return shadow_on; }
static void *heap_alloc(size_t n, size_t align) {
    if (align < 16) align = 16;
    size_t total = sizeof(Hdr) + n + 32 + (align > 16 ? align : 0);
    if (!active || !R) {
        char *raw = (char *)malloc(total + 16);
        if (!raw) return nullptr;
        uintptr_t u = (uintptr_t(raw) + sizeof(Hdr) + align - 1) & ~(uintptr_t(align) - 1);
        Hdr *h = (Hdr *)(u - sizeof(Hdr));
        h->size = n; h->magic = MAGIC; h->raw = raw; h->cls = 0;
        ++heap_blocks; heap_bytes += n;
        return (void *)u;
    }
    if (n > alloc_limit) return nullptr;
    size_t rounded; unsigned cls = cls_of(total, rounded);
    uintptr_t raw;
    if (align == 16 && freelist[cls]) { Hdr *h = freelist[cls]; freelist[cls] = (Hdr *)h->raw; raw = uintptr_t(h); }
    else { if (arena_top + rounded > ARENA + ARENA_SIZE) return nullptr; raw = arena_top; arena_top += rounded; }
    uintptr_t u = (raw + sizeof(Hdr) + align - 1) & ~(uintptr_t(align) - 1);
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    h->size = n; h->magic = MAGIC; h->raw = nullptr; h->cls = align == 16 ? cls : NCLS;
    ++heap_blocks; heap_bytes += n;
    memset((void *)u, 0xCD, n);
    if (shadow_on) {
        shadow_set(u, n, 0);
        if (n & 7) cell_of(u + n - 1).flags = uint8_t((n & 7) << 4); // only the first bytes of the last word are valid
        shadow_set((u + n + 7) & ~uintptr_t(7), 16, C_REDZONE);
        shadow_set(u - 16, 16, C_REDZONE);
    }
    return (void *)u;
}
static void heap_free(void *p) {
    resolve_store();
    if (!p) return;
    Hdr *h = (Hdr *)(uintptr_t(p) - sizeof(Hdr));
    if (h->magic != MAGIC) {
        if (active && R) fail(h->magic == DEADM ? "double-free" : "bad-free", "operator delete of a block that is not live");
        if (!active && R) return; // process is ending
        abort();
    }
    bool arena = uintptr_t(p) - ARENA < ARENA_SIZE;
    --heap_blocks; heap_bytes -= h->size;
    h->magic = DEADM;
    if (!arena) { if (active && R && my_id >= 0 && shadow_on) shadow_set(uintptr_t(p), h->size, 0); memset(p, 0xDD, h->size); free(h->raw); return; }
    if (!active || !R) return;
    if (shadow_on) {
        // Freeing counts as a write for race purposes.
        range_access(uintptr_t(p), h->size, true, uintptr_t(__builtin_return_address(0)));
        shadow_set(uintptr_t(p), h->size ? h->size : 1, C_FREED);
    }
    memset(p, 0xDD, h->size);
    if (h->cls >= NCLS || h->size > (1u << 16)) return; // never reused
    Hdr *old = quar[quar_pos];
    quar[quar_pos] = h; quar_pos = (quar_pos + 1) % QN;
    if (old) { old->raw = freelist[old->cls]; freelist[old->cls] = old; }
}

// -------------------------------------------------------------------- I/O --
static int64_t disk_capacity = -1, crash_after = -1; static uint64_t written = 0, io_errs = 0;
void set_disk_capacity(int64_t b) { disk_capacity = b; }
void set_crash_after_bytes(int64_t b) { crash_after = b; }
uint64_t bytes_written() { return written; }
uint64_t io_errors_injected() { return io_errs; }
static bool tracked_fd[1024];
static char scratch[200];
const char *scratch_dir() {
    if (!scratch[0]) { snprintf(scratch, sizeof scratch, "%s/run-%d", R->scratch_base, int(getpid())); mkdir(scratch, 0700); }
    return scratch;
}

// ------------------------------------------------------------- run set up --
static char altstack[1 << 16];
static void on_signal(int sig, siginfo_t *si, void *uc) {
    if (diag && getenv("SIM_STACK")) {
        auto *g = ((ucontext_t *)uc)->uc_mcontext.gregs; uintptr_t pc = uintptr_t(g[REG_RIP]); Dl_info d{};
        dladdr((void *)pc, &d); dprintf(2, "  signal %d at %s (0x%zx) address %p\n", sig, d.dli_sname ? d.dli_sname : "?", size_t(pc - uintptr_t(d.dli_fbase)), si->si_addr);
        print_stack((uintptr_t *)g[REG_RBP]);
    }
    const char *n = sig == SIGSEGV ? "crash-sigsegv" : sig == SIGABRT ? "crash-abort" : sig == SIGFPE ? "crash-sigfpe" : sig == SIGBUS ? "crash-sigbus" : sig == SIGILL ? "crash-sigill" : sig == SIGVTALRM ? "hang-cpu" : "crash-signal";
    if (R && R->status == 0) {
        char b[200]; snprintf(b, sizeof b, "signal %d in thread %d after %llu scheduling points%s", sig, my_id, (unsigned long long)R->steps, sig == SIGVTALRM ? " (no termination within the CPU limit)" : "");
        (void)si;
        set_violation(n, b);
    }
    _exit(1);
}
void begin_run(uint64_t seed, const Choice *const *lists, const uint32_t *counts, bool diagnostic) {
    diag = diagnostic;
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (auto &p : prng) p = splitmix(s);
    replaying = lists != nullptr;
    if (lists) for (unsigned i = 0; i < STREAM_COUNT; ++i) { rp_list[i] = lists[i]; rp_count[i] = counts[i]; }
    silent_stores = false; store_pending = false;
    R->hash = 0xcbf29ce484222325ull; R->sched_hash = 0xcbf29ce484222325ull;
    unsigned c = STREAM_COUNT;
    cfg.strategy = rndn(c, 3) == 0 ? 1 : 0;
    static const uint32_t ps[] = {500, 250, 100, 40, 15, 5};
    cfg.p_switch = ps[rndn(c, 6)];
    cfg.pct_depth = rndn(c, 6);
    static const uint32_t mp[] = {0, 0, 100, 300, 20};
    cfg.mem_preempt = mp[rndn(c, 5)];
    cfg.fault_mask = 0;
    for (unsigned i = 0; i < F_COUNT; ++i) if (rndn(c, 10) < 6) cfg.fault_mask |= 1ull << i;
    if (rndn(c, 8) == 0) cfg.fault_mask = 0; // fault-free runs are part of the mix
    static const uint32_t fs[] = {30, 100, 100, 300};
    cfg.fault_scale = fs[rndn(c, 4)];
    init_arena();
    pthread_key_create(&end_key, end_key_dtor);
    memset((void *)T, 0, sizeof T);
    nthreads = 1; nlive = 1; my_id = 0; cur = 0;
    T[0].id = 0; T[0].vc.c[0] = 1; T[0].prio = 50 + rndn(c, 50);
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(sg, &sa, nullptr);
    itimerval it{}; it.it_value.tv_sec = R->cpu_limit_s; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    active = true;
    op_cost = 100 + 100 * pick(10);
}
void end_run() {
    R->sim_ns = vnow - 1000000000ull;
    active = false;
}
uint64_t run_sim_ns() { return vnow - 1000000000ull; }

} // namespace sim
using namespace sim;

// ======================================================================
//                          interposed C interfaces
// ======================================================================
#define REAL(name) ({ static decltype(&name) p_ = (decltype(&name))dlsym(RTLD_NEXT, #name); p_; })
static inline bool SIMMED() { return active && my_id >= 0; }

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!SIMMED()) return 0;
    point(10); mtx_acquire(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!SIMMED()) return 0;
    point(11);
    auto &s = mutexes.get(m);
    if (s.owner1 && !(s.owner1 == my_id + 1 && is_recursive(m))) return EBUSY;
    mtx_acquire(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!SIMMED()) return 0;
    mtx_release(m); point(12); return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; if (pthread_mutexattr_gettype(a, &k) == 0) m->__data.__kind = k; }
    if (SIMMED()) { auto &s = mutexes.get(m); s.owner1 = 0; s.count = 0; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (SIMMED()) if (auto *s = mutexes.find(m)) { if (s->owner1) fail("mutex-misuse", "mutex destroyed while held by thread %d", s->owner1 - 1); }
    return 0;
}

// A destroyed condition variable is marked in its own memory; construction overwrites the mark.
static const uint64_t COND_DEAD[3] = {0xDEADC0DDEADC0DD1ull, 0x5A5AC0DDEADC0DD1ull, 0xC0DDDEADC0DDDEADull};
static bool cond_dead(pthread_cond_t *c) { return !memcmp(c, COND_DEAD, sizeof COND_DEAD); }
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t deadline) {
    point(20);
    if (cond_dead(c)) fail("use-after-destroy", "wait on a destroyed condition variable");
    bool spurious = fault(F_SPURIOUS_WAKEUP, 1, 40);
    mtx_release(m);
    bool woken = true;
    if (!spurious) {
        T[my_id].cond_seq = ++cond_seq_counter;
        block_on(B_COND, c, timed, deadline);
        woken = T[my_id].woken;
    } else point(21, true);
    mtx_acquire(m);
    return timed && !woken ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!SIMMED()) return 0;
    return cond_wait_common(c, m, false, 0);
}
static uint64_t rt_base = 1700000000000000000ull;
static const uint64_t mono_base = 34567890987654321ull; // the machine has been up for 400 days
static uint64_t to_virtual(clockid_t ck, const timespec *ts) {
    int64_t t = int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
    if (ck == CLOCK_REALTIME) t -= int64_t(rt_base) + rt_offset; else t -= int64_t(mono_base);
    return t < 0 ? 0 : uint64_t(t);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
    if (!SIMMED()) return 0;
    return cond_wait_common(c, m, true, to_virtual(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const timespec *ts) {
    if (!SIMMED()) return 0;
    return cond_wait_common(c, m, true, to_virtual(ck, ts));
}
static void check_cond(pthread_cond_t *c) {
    if (heap_shadow() && cell_of(uintptr_t(c)).flags & C_FREED) fail("use-after-free", "condition variable signalled after its memory was freed");
    if (cond_dead(c)) fail("use-after-destroy", "condition variable signalled after destruction");
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!SIMMED()) return 0;
    point(22);
    check_cond(c);
    // Waiters in arrival order; default wakes the longest waiting.
    int w[MAXT]; unsigned n = 0;
    for (unsigned i = 0; i < nthreads; ++i) if (T[i].st == B_COND && T[i].obj == c) w[n++] = int(i);
    for (unsigned i = 1; i < n; ++i) for (unsigned j = i; j && T[w[j]].cond_seq < T[w[j - 1]].cond_seq; --j) { int t = w[j]; w[j] = w[j - 1]; w[j - 1] = t; }
    if (n) { int t = w[n > 1 ? pick_on(STREAM_SCHED, n) : 0]; T[t].st = RUNNABLE; T[t].woken = true; T[t].timed = false; T[t].obj = nullptr; }
    point(23);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!SIMMED()) return 0;
    point(24);
    check_cond(c);
    wake_obj(B_COND, c);
    point(25);
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
    if (SIMMED()) {
        for (unsigned i = 0; i < nthreads; ++i) if (T[i].st == B_COND && T[i].obj == c) fail("use-after-destroy", "condition variable destroyed while thread %u waits on it", i);
        memcpy(c, COND_DEAD, sizeof COND_DEAD);
    }
    return 0;
}

// -------------------------------------------------------------- rwlock ----
static int rw_lock(pthread_rwlock_t *l, bool write, bool try_only) {
    point(write ? 30 : 31);
    for (;;) {
        auto &s = rws.get(l);
        if (write ? (!s.writer1 && !s.readers) : !s.writer1) {
            if (write) { s.writer1 = my_id + 1; acquire_vc(s.vc); acquire_vc(s.rvc); } else { ++s.readers; acquire_vc(s.vc); }
            return 0;
        }
        if (try_only) return EBUSY;
        if (s.writer1 == my_id + 1) return EDEADLK;
        block_on(B_RW, l);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return SIMMED() ? rw_lock(l, false, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return SIMMED() ? rw_lock(l, true, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return SIMMED() ? rw_lock(l, false, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return SIMMED() ? rw_lock(l, true, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!SIMMED()) return 0;
    auto &s = rws.get(l);
    if (s.writer1 == my_id + 1) { s.writer1 = 0; release_to(s.vc); }
    else if (s.readers) { --s.readers; release_to(s.rvc); }
    else fail("mutex-misuse", "unlock of a shared mutex that is not held");
    wake_obj(B_RW, l);
    point(32);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

// -------------------------------------------------------------- threads ---
static pthread_t fake_id(int id) { return pthread_t(0x100000 + uint64_t(id) * 0x1000); }
static int from_fake(pthread_t t) { return int((uint64_t(t) - 0x100000) / 0x1000); }
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!SIMMED()) return REAL(pthread_create)(out, attr, fn, arg);
    point(40);
    if (nthreads >= MAXT) fail("harness", "too many simulated threads");
    int id = int(nthreads++);
    auto &t = T[id];
    memset(&t, 0, sizeof t);
    t.id = id; t.st = RUNNABLE; t.fn = fn; t.arg = arg;
    t.vc = T[my_id].vc; t.vc.c[id] = 1; ++T[my_id].vc.c[my_id];
    t.prio = 50 + rndn(STREAM_COUNT, 50);
    int det = 0; if (attr) { pthread_attr_getdetachstate(attr, &det); t.detached = det == PTHREAD_CREATE_DETACHED; }
    ++nlive; ++R->threads;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    // Every simulated thread gets a stack of its own that is never reused, so
    // stacks carry no history of other threads.
    void *stk = mmap(nullptr, 2 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (stk == MAP_FAILED) fail("harness", "stack mmap failed");
    pthread_attr_setstack(&a, stk, 2 << 20);
    pthread_t real;
    int rc = REAL(pthread_create)(&real, &a, thread_entry, (void *)intptr_t(id));
    pthread_attr_destroy(&a);
    if (rc) fail("harness", "pthread_create failed: %d", rc);
    *out = fake_id(id);
    point(41);
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    if (!SIMMED()) return REAL(pthread_join)(th, ret);
    point(42);
    int id = from_fake(th);
    if (id <= 0 || id >= int(nthreads)) fail("thread-misuse", "join of an unknown thread");
    auto &t = T[id];
    if (t.joined || t.detached) fail("thread-misuse", "join of a joined or detached thread");
    if (id == my_id) return EDEADLK;
    while (t.st != FINISHED) block_on(B_JOIN, &t);
    t.joined = true;
    acquire_vc(t.vc);
    if (ret) *ret = t.ret;
    return 0;
}
int pthread_detach(pthread_t th) {
    if (!SIMMED()) return REAL(pthread_detach)(th);
    T[from_fake(th)].detached = true;
    return 0;
}
pthread_t pthread_self(void) {
    if (!SIMMED()) return REAL(pthread_self)();
    return fake_id(my_id);
}
int sched_yield(void) { if (SIMMED()) point(43, true); return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!SIMMED()) { if (*o == 0) { *o = 2; f(); } return 0; }
    point(44);
    for (;;) {
        auto &s = onces.get(o);
        if (*o == 2 && s.st != 1) { acquire_vc(s.vc); return 0; }
        if (s.st == 0) { s.st = 1; f(); auto &s2 = onces.get(o); s2.st = 0; *o = 2; release_to(s2.vc); wake_obj(B_ONCE, o); return 0; }
        block_on(B_ONCE, o);
    }
}
int __cxa_guard_acquire(uint64_t *g) {
    if (*(volatile char *)g) { if (SIMMED()) acquire_vc(onces.get(g).vc); return 0; }
    if (!SIMMED()) return 1;
    point(45);
    for (;;) {
        auto &s = onces.get(g);
        if (*(volatile char *)g) { acquire_vc(s.vc); return 0; }
        if (s.st == 0) { s.st = 1; return 1; }
        block_on(B_ONCE, g);
    }
}
void __cxa_guard_release(uint64_t *g) {
    *(volatile char *)g = 1;
    if (!SIMMED()) return;
    auto &s = onces.get(g); s.st = 0; release_to(s.vc); vc_join(atomics.get(g), s.vc); wake_obj(B_ONCE, g); point(46);
}
void __cxa_guard_abort(uint64_t *g) { if (!SIMMED()) return; onces.get(g).st = 0; wake_obj(B_ONCE, g); }

// ----------------------------------------------------------------- futex --
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && SIMMED()) {
        int op = int(b) & FUTEX_CMD_MASK; int *addr = (int *)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(50);
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != int(c)) { errno = EAGAIN; return -1; }
            bool timed = d != 0; uint64_t dl = 0;
            if (timed) { auto *ts = (timespec *)d; if (op == FUTEX_WAIT) dl = vnow + uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec); else dl = to_virtual(int(b) & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
            block_on(B_FUTEX, addr, timed, dl);
            if (timed && !T[my_id].woken) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point(51);
            long k = 0;
            for (unsigned i = 0; i < nthreads && k < c; ++i) if (T[i].st == B_FUTEX && T[i].obj == addr) { T[i].st = RUNNABLE; T[i].woken = true; T[i].timed = false; T[i].obj = nullptr; ++k; }
            point(52);
            return k;
        }
    }
    long r = syscall_raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}

// ------------------------------------------------------------------ time --
int sim_fail_monotonic = -1;
static bool no_monotonic() {
    if (sim_fail_monotonic < 0) { const char *e = getenv("SIM_NO_MONOTONIC"); sim_fail_monotonic = e && *e == '1'; }
    return sim_fail_monotonic;
}
static void time_point() {
    if (!SIMMED()) return;
    point(60);
    if (time_faults && !faults_off) {
        if (uint32_t m = fault_mag(F_CLOCK_JUMP_FWD, 1, 60, 30)) vnow += 1000000ull << (m / 2);       // up to 32 s
        if (uint32_t m = fault_mag(F_CLOCK_JUMP_BACK, 1, 60, 30)) rt_offset -= int64_t(1000000ll << (m / 2));
        if (uint32_t m = fault_mag(F_CLOCK_STALL, 1, 60, 30)) rt_offset += int64_t(1000000ll << (m / 2)); // wall clock set forward
    }
}
static inline bool is_rt(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE; }
int clock_gettime(clockid_t ck, timespec *ts) noexcept {
    if (!is_rt(ck) && no_monotonic()) { errno = EINVAL; return -1; }
    time_point();
    uint64_t t = vnow + mono_base;
    if (is_rt(ck)) t = uint64_t(int64_t(rt_base + vnow) + rt_offset);
    ts->tv_sec = time_t(t / 1000000000ull); ts->tv_nsec = long(t % 1000000000ull);
    return 0;
}
int gettimeofday(timeval *tv, void *) noexcept {
    time_point();
    uint64_t t = uint64_t(int64_t(rt_base + vnow) + rt_offset);
    tv->tv_sec = time_t(t / 1000000000ull); tv->tv_usec = long(t % 1000000000ull / 1000);
    return 0;
}
time_t time(time_t *o) noexcept {
    time_t t = time_t(uint64_t(int64_t(rt_base + vnow) + rt_offset) / 1000000000ull);
    if (o) *o = t;
    return t;
}
static int do_sleep(uint64_t ns, timespec *rem) {
    point(61);
    if (ns > 1000) if (uint32_t m = fault_mag(F_EINTR, 1, 8, 1000)) {
        uint64_t part = ns / 1000 * m; if (part >= ns) part = ns - 1;
        block_on(B_SLEEP, nullptr, true, vnow + part);
        uint64_t left = ns - part;
        if (rem) { rem->tv_sec = time_t(left / 1000000000ull); rem->tv_nsec = long(left % 1000000000ull); }
        errno = EINTR;
        return -1;
    }
    block_on(B_SLEEP, nullptr, true, vnow + ns);
    return 0;
}
int nanosleep(const timespec *ts, timespec *rem) {
    if (!SIMMED()) return 0;
    if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999) { errno = EINVAL; return -1; }
    return do_sleep(uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec), rem);
}
int clock_nanosleep(clockid_t ck, int flags, const timespec *ts, timespec *rem) {
    if (!SIMMED()) return 0;
    uint64_t ns = uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
    if (flags & TIMER_ABSTIME) { uint64_t v = to_virtual(ck, ts); ns = v > vnow ? v - vnow : 0; rem = nullptr; }
    return do_sleep(ns, rem) ? EINTR : 0;
}
int usleep(useconds_t us) { timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { timespec ts{time_t(s), 0}, rem{}; if (nanosleep(&ts, &rem)) return unsigned(rem.tv_sec + 1); return 0; }
static int empty_poll(uint64_t ns) { timespec r{}; return do_sleep(ns, &r) ? -1 : 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, timeval *tv) {
    if (!SIMMED() || n > 0 || !tv) { errno = EINVAL; return -1; }
    if (tv->tv_sec < 0 || tv->tv_usec < 0) { errno = EINVAL; return -1; }
    timespec rem{}; int rc = do_sleep(uint64_t(tv->tv_sec) * 1000000000ull + uint64_t(tv->tv_usec) * 1000ull, &rem) ? -1 : 0;
    tv->tv_sec = rc ? rem.tv_sec : 0; tv->tv_usec = rc ? rem.tv_nsec / 1000 : 0;
    (void)r; (void)w; (void)e;
    return rc;
}
int pselect(int n, fd_set *, fd_set *, fd_set *, const timespec *ts, const sigset_t *) {
    if (!SIMMED() || n > 0 || !ts) { errno = EINVAL; return -1; }
    return empty_poll(uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec));
}
int poll(struct pollfd *, nfds_t n, int ms) {
    if (!SIMMED() || n || ms < 0) { errno = EINVAL; return -1; }
    return empty_poll(uint64_t(ms) * 1000000ull);
}
static int nprocs = 4;
int get_nprocs(void) noexcept { return nprocs; }
int rand(void) noexcept { return SIMMED() ? int(pick_on(STREAM_NET, RAND_MAX)) : 4; }

void sim_contract_failure(const char *expr, const char *msg, const char *fn) {
    if (active && my_id >= 0) fail("ecs-contract", "%s (%s) in %.300s", msg, expr, fn);
}
void __assert_fail(const char *expr, const char *file, unsigned line, const char *fn) noexcept {
    if (active && R) { const char *b = strrchr(file, '/'); (void)line; fail("assertion", "assertion `%s' failed in %s (%s)", expr, fn ? fn : "?", b ? b + 1 : file); }
    fprintf(stderr, "assert %s %s:%u\n", expr, file, line);
    abort();
}

// ------------------------------------------------------------------- I/O --
static bool io_scope(int fd) { return active && my_id >= 0 && io_faults && fd >= 0 && fd < 1024 && tracked_fd[fd]; }
FILE *fopen64(const char *path, const char *mode) {
    auto *real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
    bool mine = SIMMED() && scratch[0] && !strncmp(path, scratch, strlen(scratch));
    if (mine) {
        point(70);
        if (io_faults && io_hard && fault(F_OPEN_FAIL, 1, 40)) { ++io_errs; errno = EMFILE; return nullptr; }
    }
    FILE *f = real(path, mode);
    if (f && mine) { int fd = fileno(f); if (fd < 1024) tracked_fd[fd] = true; }
    return f;
}
FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }
int fclose(FILE *f) {
    int fd = fileno(f);
    auto *real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    if (fd >= 0 && fd < 1024) tracked_fd[fd] = false;
    return real(f);
}
ssize_t read(int fd, void *b, size_t n) {
    if (SIMMED() && fd >= 0 && fd < 1024 && tracked_fd[fd]) point(71);
    if (io_scope(fd) && n > 0) {
        if (fault(F_EINTR, 1, 30)) { errno = EINTR; return -1; }
        if (io_hard && fault(F_IO_ERROR, 1, 60)) { ++io_errs; errno = EIO; return -1; }
        if (uint32_t m = fault_mag(F_SHORT_READ, 1, 6, 1000)) { size_t k = n * m / 1001; if (k < 1) k = 1; n = k; }
    }
    long r = syscall_raw(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
    if (r < 0) { errno = int(-r); return -1; }
    return r;
}
static ssize_t write_common(int fd, const char *b, size_t n) {
    if (io_scope(fd) && n > 0) {
        if (fault(F_EINTR, 1, 30)) { errno = EINTR; return -1; }
        if (io_hard && fault(F_IO_ERROR, 1, 120)) { ++io_errs; errno = EIO; return -1; }
        if (uint32_t m = fault_mag(F_SHORT_WRITE, 1, 6, 1000)) { size_t k = n * m / 1001; if (k < 1) k = 1; n = k; }
    }
    if (SIMMED() && fd >= 0 && fd < 1024 && tracked_fd[fd]) {
        if (disk_capacity >= 0) {
            if (int64_t(written) >= disk_capacity) { ++io_errs; ++R->faults[F_NO_SPACE]; errno = ENOSPC; return -1; }
            if (int64_t(written + n) > disk_capacity) n = size_t(disk_capacity - int64_t(written));
        }
        if (crash_after >= 0) { // power loss: acknowledged but never durable
            size_t keep = int64_t(written) >= crash_after ? 0 : size_t(crash_after - int64_t(written));
            if (keep < n) {
                ++R->faults[F_TORN_WRITE];
                if (keep) { long r = syscall_raw(SYS_write, fd, (long)b, (long)keep, 0, 0, 0); (void)r; }
                written += n;
                return ssize_t(n);
            }
        }
    }
    long r = syscall_raw(SYS_write, fd, (long)b, (long)n, 0, 0, 0);
    if (r < 0) { errno = int(-r); return -1; }
    if (SIMMED() && fd >= 0 && fd < 1024 && tracked_fd[fd]) written += uint64_t(r);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (SIMMED() && fd >= 0 && fd < 1024 && tracked_fd[fd]) point(72);
    return write_common(fd, (const char *)b, n);
}
ssize_t writev(int fd, const iovec *v, int cnt) {
    if (SIMMED() && fd >= 0 && fd < 1024 && tracked_fd[fd]) {
        point(73);
        ssize_t total = 0;
        for (int i = 0; i < cnt; ++i) {
            if (!v[i].iov_len) continue;
            ssize_t r = write_common(fd, (const char *)v[i].iov_base, v[i].iov_len);
            if (r < 0) return total ? total : r;
            total += r;
            if (size_t(r) < v[i].iov_len) break;
        }
        return total;
    }
    long r = syscall_raw(SYS_writev, fd, (long)v, cnt, 0, 0, 0);
    if (r < 0) { errno = int(-r); return -1; }
    return r;
}

// -------------------------------------------------------------- TSan ABI --
#define PC uintptr_t(__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW_(n) \
    void __tsan_read##n(void *a) { mem_access(uintptr_t(a), n, false, PC); } \
    void __tsan_write##n(void *a) { mem_access(uintptr_t(a), n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { mem_access(uintptr_t(a), n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { mem_access(uintptr_t(a), n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { mem_access(uintptr_t(a), n, false, PC); } \
    void __tsan_volatile_write##n(void *a) { mem_access(uintptr_t(a), n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { mem_access(uintptr_t(a), n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { mem_access(uintptr_t(a), n, true, PC); } \
    void __tsan_read_write##n(void *a) { mem_access(uintptr_t(a), n, true, PC); } \
    void __tsan_unaligned_read_write##n(void *a) { mem_access(uintptr_t(a), n, true, PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_read_range(void *a, unsigned long n) { range_access(uintptr_t(a), n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { range_access(uintptr_t(a), n, true, PC); }
void __tsan_vptr_update(void **vp, void *nv) { if (*vp != nv) mem_access(uintptr_t(vp), 8, true, PC); }
void __tsan_vptr_read(void **vp) { mem_access(uintptr_t(vp), 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range_access(uintptr_t(s), n, false, PC); range_access(uintptr_t(d), n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range_access(uintptr_t(s), n, false, PC); range_access(uintptr_t(d), n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { range_access(uintptr_t(d), n, true, PC); return memset(d, v, n); }

enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool acq(int m) { return m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ_CST || m == MO_CONSUME; }
static inline bool rel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static void at_check(const volatile void *a, unsigned n) {
    if (!SIMMED() || !heap_shadow()) return;
    uintptr_t x = uintptr_t(a);
    uint8_t f = cell_of(x).flags;
    if (f & C_FREED) fail("use-after-free", "atomic access of %u bytes in freed heap memory", n);
    if (f & C_REDZONE) fail("heap-overflow", "atomic access of %u bytes past a heap block", n);
}
static void at_load(const volatile void *a, int mo) {
    if (!SIMMED()) return;
    auto &me = T[my_id];
    if (auto *v = atomics.find((const void *)a)) { if (acq(mo)) acquire_vc(*v); else { vc_join(me.acq_pending, *v); me.has_acq = true; } }
}
static void at_store(const volatile void *a, int mo) {
    if (!SIMMED()) return;
    auto &me = T[my_id]; auto &v = atomics.get((const void *)a);
    if (rel(mo)) { v = me.vc; ++me.vc.c[my_id]; }
    else if (me.has_rel_fence) v = me.rel_fence;
    else memset(&v, 0, sizeof v);
}
static void at_rmw(const volatile void *a, int mo) {
    if (!SIMMED()) return;
    auto &me = T[my_id]; auto &v = atomics.get((const void *)a);
    if (acq(mo)) acquire_vc(v); else { vc_join(me.acq_pending, v); me.has_acq = true; }
    if (rel(mo)) release_to(v);
    else if (me.has_rel_fence) vc_join(v, me.rel_fence);
}
#define ATOMIC(bits, T_) \
    T_ __tsan_atomic##bits##_load(const volatile T_ *a, int mo) { point(80); at_check(a, bits / 8); T_ v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile T_ *a, T_ v, int mo) { point(81); at_check(a, bits / 8); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); at_store(a, mo); } \
    T_ __tsan_atomic##bits##_exchange(volatile T_ *a, T_ v, int mo) { point(82); at_check(a, bits / 8); T_ r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_rmw(a, mo); return r; } \
    T_ __tsan_atomic##bits##_fetch_add(volatile T_ *a, T_ v, int mo) { point(83); at_check(a, bits / 8); T_ r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_rmw(a, mo); return r; } \
    T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *a, T_ v, int mo) { point(84); at_check(a, bits / 8); T_ r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_rmw(a, mo); return r; } \
    T_ __tsan_atomic##bits##_fetch_and(volatile T_ *a, T_ v, int mo) { point(85); at_check(a, bits / 8); T_ r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_rmw(a, mo); return r; } \
    T_ __tsan_atomic##bits##_fetch_or(volatile T_ *a, T_ v, int mo) { point(86); at_check(a, bits / 8); T_ r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_rmw(a, mo); return r; } \
    T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *a, T_ v, int mo) { point(87); at_check(a, bits / 8); T_ r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_rmw(a, mo); return r; } \
    T_ __tsan_atomic##bits##_fetch_nand(volatile T_ *a, T_ v, int mo) { point(88); at_check(a, bits / 8); T_ r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_rmw(a, mo); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { point(89); at_check(a, bits / 8); T_ e = *c; if (__atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { at_rmw(a, mo); return 1; } at_load(a, fmo); *c = e; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *a, T_ c, T_ v, int mo, int fmo) { T_ e = c; __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    point(90);
    if (!SIMMED()) return;
    auto &me = T[my_id];
    if (acq(mo) && me.has_acq) acquire_vc(me.acq_pending);
    if (rel(mo)) { me.rel_fence = me.vc; me.has_rel_fence = true; ++me.vc.c[my_id]; }
}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"


// ------------------------------------------------------- operator new/delete
void *operator new(size_t n) { void *p = heap_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = heap_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heap_alloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heap_alloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { void *p = heap_alloc(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = heap_alloc(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { heap_free(p); }
void operator delete[](void *p) noexcept { heap_free(p); }
void operator delete(void *p, size_t) noexcept { heap_free(p); }
void operator delete[](void *p, size_t) noexcept { heap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { heap_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { heap_free(p); }
