// Deterministic simulation runtime: public interface for scenarios.
//
// A scenario is a plain function.  It runs inside one process in which exactly
// one thread makes progress at a time; every thread switch, delay, time value,
// fault and workload decision is drawn from numbered choice streams, so a run
// is a function of its choice sequence.  Value 0 always means "default": stay
// on the current thread, inject nothing, smallest workload.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace sim {

enum Stream : unsigned { STREAM_WORK = 0, STREAM_SCHED = 1, STREAM_FAULT = 2, STREAM_NET = 3, STREAM_MEM = 4, STREAM_COUNT = 5 };

enum Fault : unsigned {
    F_SPURIOUS_WAKEUP, F_EINTR, F_CLOCK_JUMP_FWD, F_CLOCK_JUMP_BACK, F_CLOCK_STALL, F_THREAD_STALL, F_PREEMPT, F_MEM_PREEMPT,
    F_NET_LOSS, F_NET_DUP, F_NET_REORDER, F_NET_DELAY, F_NET_PARTITION, F_NET_CORRUPT, F_NET_TRUNCATE, F_NET_FORGE,
    F_CRASH_RESTART, F_DISCONNECT,
    F_SHORT_READ, F_SHORT_WRITE, F_IO_ERROR, F_NO_SPACE, F_TORN_WRITE, F_OPEN_FAIL, F_BIT_FLIP,
    F_TIME_SKEW, F_SLOW_NODE, F_COUNT
};
extern const char *const fault_names[F_COUNT];

// ---- choices -------------------------------------------------------------
// Uniform workload choice in [0, n).
uint32_t pick(uint32_t n);
// Workload choice in [lo, hi].
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }
// Uniform choice on another stream.
uint32_t pick_on(Stream s, uint32_t n);
// True with probability num/den if fault kind is enabled in this run; counted.
bool fault(Fault kind, uint32_t num, uint32_t den);
// Same, returns a non-zero magnitude in [1, max] when the fault happens, else 0.
uint32_t fault_mag(Fault kind, uint32_t num, uint32_t den, uint32_t max);
// Declares that faults have stopped; from here on scheduling is fair and no
// fault is injected.
void stop_faults();
bool faults_stopped();

// ---- checks --------------------------------------------------------------
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char *name);              // coverage probe: rare condition reached
void count_check(uint64_t n = 1);          // number of property evaluations
void state(uint64_t h);                    // record a reached state (distinct counted)
void mix(uint64_t v);                      // mix a value into the execution hash
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // kept in replay log

// ---- world ---------------------------------------------------------------
uint64_t now_ns();                         // virtual monotonic time
void advance_ns(uint64_t ns);              // let virtual time pass without blocking
void sleep_ns(uint64_t ns);                // block current simulated thread
uint64_t tick();                           // strictly increasing logical stamp
void yield();                              // scheduling point
void set_step_budget(uint64_t steps);      // liveness bound (scheduling points)
int  self();                               // simulated thread index
unsigned live_threads();                   // started and not finished
bool races_enabled();
void set_realtime_offset(int64_t ns);
void enable_time_faults(bool on);          // allow clock faults
void enable_stalls(bool on);
void track_races(bool on);
void ignore_silent_stores(bool on);        // stores that do not change memory count as reads in race detection
// Scratch directory of this run (created on demand, removed by the driver).
const char *scratch_dir();

struct IoPlan { bool enabled; };
// Short transfers and EINTR; with hard also EIO and failing opens.
void enable_io_faults(bool on, bool hard = false);
// When >= 0: number of bytes after which the "disk" refuses further writes.
void set_disk_capacity(int64_t bytes);
// When >= 0: bytes accepted before a simulated crash: later writes are lost.
void set_crash_after_bytes(int64_t bytes);
uint64_t bytes_written();
uint64_t io_errors_injected();
uint64_t live_heap_blocks();               // operator new blocks not deleted
uint64_t live_heap_bytes();
void set_alloc_limit(size_t bytes);        // larger operator new requests fail

// Registered by each check.
struct ScenarioDef { const char *name; void (*run)(); uint32_t weight; };
void register_scenario(const char *name, void (*run)(), uint32_t weight = 1);
struct AutoReg { AutoReg(const char *n, void (*f)(), uint32_t w = 1) { register_scenario(n, f, w); } };

}

#define SIM_SCENARIO(name, weight) static void name(); static ::sim::AutoReg reg_##name(#name, &name, weight); static void name()
#define SIM_CHECK(cond, kind, ...) do { ::sim::count_check(); if (!(cond)) ::sim::fail(kind, __VA_ARGS__); } while (0)

#endif
