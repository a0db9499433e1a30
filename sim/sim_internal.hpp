#ifndef VERIF_SIM_INTERNAL_HPP
#define VERIF_SIM_INTERNAL_HPP
#include "sim.hpp"
namespace sim {
constexpr unsigned MAXT = 32, MAX_PROBES = 64, MAX_STATES = 256;
struct Choice { uint32_t idx, val; };
struct RunResult { // lives in memory shared with the driver
    volatile int status;          // 0 ok, 1 violation
    int finished;
    char kind[64], msg[1600], scenario[64];
    uint64_t hash, sched_hash, steps, switches, threads, checks, sim_ns;
    uint64_t faults[F_COUNT];
    struct { char name[48]; uint64_t n; } probes[MAX_PROBES];
    uint64_t states[MAX_STATES]; unsigned nstates;
    uintptr_t pc[2], base;
    unsigned cpu_limit_s;
    char scratch_base[160];
    char trace[1 << 16]; unsigned trace_len;
    uint32_t cap; uint32_t nchoices[STREAM_COUNT];
    Choice data[1];
    Choice *choices(unsigned s) { return data + size_t(s) * cap; }
};
extern RunResult *R;
extern bool active;
long syscall_raw(long n, long a, long b, long c, long d, long e, long f);
void begin_run(uint64_t seed, const Choice *const *lists, const uint32_t *counts, bool diagnostic);
void end_run();
uint64_t run_sim_ns();
void set_heap_shadow(bool);
}
#endif
