#include <sys/personality.h>
// Driver: seeded search over simulated runs, failure gating, minimisation and
// replay.  Compiled WITHOUT instrumentation.
#include "sim_internal.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <dirent.h>

using namespace sim;

static ScenarioDef scen[64]; static unsigned nscen = 0;
void sim::register_scenario(const char *n, void (*r)(), uint32_t w) { if (nscen < 64) scen[nscen++] = {n, r, w}; }

static double wall() { timespec ts; syscall_raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9; }
static uint64_t mix64(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

struct Opts {
    uint64_t runs = 1000, seed = 1; unsigned jobs = 8; double time_cap = 0; std::string report, replay_out, replay, only; bool no_min = false; long one = -1;
    unsigned cpu_limit = 10; std::string scratch = "/tmp"; bool noshadow = false; std::string expect_hash; bool verbose = false;
} opt;

static constexpr uint32_t CAP = 400000;
static size_t rr_size() { return sizeof(RunResult) + sizeof(Choice) * size_t(CAP) * STREAM_COUNT; }
static RunResult *new_rr() {
    auto *r = (RunResult *)mmap(nullptr, rr_size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED) { perror("mmap"); _exit(3); }
    r->cap = CAP;
    return r;
}
static void reset_rr(RunResult *r) { memset((void *)r, 0, sizeof(RunResult)); r->cap = CAP; r->cpu_limit_s = opt.cpu_limit; snprintf(r->scratch_base, sizeof r->scratch_base, "%s", opt.scratch.c_str()); }

static void rm_scratch(const std::string &d) {
    if (d.find("/run-") == std::string::npos) return;
    if (DIR *dp = opendir(d.c_str())) {
        while (auto *e = readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((d + "/" + e->d_name).c_str());
        closedir(dp); rmdir(d.c_str());
    }
}

using Lists = std::vector<Choice>[STREAM_COUNT];
struct Trace { std::vector<Choice> s[STREAM_COUNT]; };

// Runs one simulated execution in a forked child.  tr == nullptr: search.
static void run_child_once(RunResult *r, unsigned sc, uint64_t seed, const Trace *tr, bool diag) {
    reset_rr(r);
    snprintf(r->scenario, sizeof r->scenario, "%s", scen[sc].name);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0 && !opt.verbose) { dup2(nul, 1); dup2(nul, 2); }
        R = r;
        set_heap_shadow(!opt.noshadow);
        const Choice *l[STREAM_COUNT]; uint32_t n[STREAM_COUNT];
        if (tr) for (unsigned i = 0; i < STREAM_COUNT; ++i) { l[i] = tr->s[i].data(); n[i] = uint32_t(tr->s[i].size()); }
        alarm(opt.cpu_limit * 6);
        begin_run(seed, tr ? l : nullptr, tr ? n : nullptr, diag);
        scen[sc].run();
        end_run();
        r->finished = 1;
        _exit(0);
    }
    if (pid < 0) { perror("fork"); _exit(3); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    rm_scratch(opt.scratch + "/run-" + std::to_string(pid));
    if (!r->finished && !r->status) {
        r->status = 1;
        if (WIFSIGNALED(st)) { snprintf(r->kind, sizeof r->kind, "%s", WTERMSIG(st) == SIGALRM ? "harness" : "crash-signal"); snprintf(r->msg, sizeof r->msg, "process killed by signal %d", WTERMSIG(st)); }
        else { snprintf(r->kind, sizeof r->kind, "unexpected-exit"); snprintf(r->msg, sizeof r->msg, "process exited with status %d before the scenario finished", WEXITSTATUS(st)); }
    }
}
// A run over the CPU limit is only a hang if it also exceeds a far larger one.
static bool is_hang(const RunResult *r) { return !strcmp(r->kind, "hang-cpu"); }
static void run_child(RunResult *r, unsigned sc, uint64_t seed, const Trace *tr, bool diag) {
    run_child_once(r, sc, seed, tr, diag);
    if (r->status && (is_hang(r) || !strcmp(r->kind, "harness"))) { auto l = opt.cpu_limit; opt.cpu_limit = l * 6; run_child_once(r, sc, seed, tr, diag); opt.cpu_limit = l; }
    if (is_hang(r)) r->hash = 0; // the point at which the limit strikes is not repeatable
}
static Trace take(RunResult *r) {
    Trace t;
    for (unsigned i = 0; i < STREAM_COUNT; ++i) { uint32_t n = std::min(r->nchoices[i], CAP); t.s[i].assign(r->choices(i), r->choices(i) + n); }
    return t;
}
static bool overflowed(RunResult *r) { for (auto n : r->nchoices) if (n > CAP) return true; return false; }

static void esc(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static const char *const stream_names[] = {"work", "sched", "fault", "net", "mem"};
static void write_replay(const std::string &path, RunResult *r, uint64_t seed, const Trace &t, uint64_t idx) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); _exit(3); }
    fprintf(f, "edyn-sim-replay 1\nscenario %s\nseed %llu\nrun %llu\nkind %s\nhash %016llx\nmessage %s\nenv %s\n", r->scenario, (unsigned long long)seed, (unsigned long long)idx, r->kind, (unsigned long long)r->hash, r->msg, getenv("SIM_ENV_NOTE") ? getenv("SIM_ENV_NOTE") : "-");
    for (unsigned i = 0; i < STREAM_COUNT; ++i) {
        fprintf(f, "stream %s %zu\n", stream_names[i], t.s[i].size());
        for (auto &c : t.s[i]) fprintf(f, "%u:%u ", c.idx, c.val);
        fprintf(f, "\n");
    }
    fprintf(f, "trace\n%.*s", int(r->trace_len), r->trace);
    fclose(f);
}
static bool read_replay(const std::string &path, std::string &scn, uint64_t &seed, Trace &t, std::string &kind, std::string &hash) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f) return false;
    char *line = nullptr; size_t cap = 0; ssize_t n; unsigned s = 0;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[n - 1] = 0;
        if (!strncmp(line, "scenario ", 9)) scn = line + 9;
        else if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, nullptr, 10);
        else if (!strncmp(line, "kind ", 5)) kind = line + 5;
        else if (!strncmp(line, "hash ", 5)) hash = line + 5;
        else if (!strncmp(line, "stream ", 7)) {
            if ((n = getline(&line, &cap, f)) <= 0) break;
            char *p = line;
            while (s < STREAM_COUNT) { char *e; unsigned long a = strtoul(p, &e, 10); if (e == p || *e != ':') break; p = e + 1; unsigned long b = strtoul(p, &e, 10); p = e; t.s[s].push_back(Choice{uint32_t(a), uint32_t(b)}); }
            ++s;
        } else if (!strcmp(line, "trace")) break;
    }
    free(line); fclose(f);
    return s == STREAM_COUNT;
}

struct Shared { volatile uint64_t best; volatile uint64_t next; volatile int stop; };
struct Agg {
    uint64_t runs = 0, steps = 0, switches = 0, threads = 0, checks = 0, sim_ns = 0, nontrivial = 0, faulty = 0; uint64_t faults[F_COUNT] = {}; std::map<std::string, uint64_t> probes, scen_runs; std::unordered_set<uint64_t> sched, states; std::map<uint64_t, std::string> samples;
};
static void add(Agg &a, RunResult *r) {
    ++a.runs; a.steps += r->steps; a.switches += r->switches; a.threads += r->threads; a.checks += r->checks; a.sim_ns += r->sim_ns;
    bool any = false;
    for (unsigned i = 0; i < F_COUNT; ++i) { a.faults[i] += r->faults[i]; if (r->faults[i]) any = true; }
    if (any) ++a.faulty;
    if (r->checks > 0) ++a.nontrivial;
    for (auto &p : r->probes) if (p.name[0]) a.probes[p.name] += p.n;
    a.scen_runs[r->scenario]++;
    if (a.sched.size() < 3000000) a.sched.insert(r->hash);
    for (unsigned i = 0; i < r->nstates; ++i) if (a.states.size() < 3000000) a.states.insert(r->states[i]);
}
static void put(FILE *f, const Agg &a) {
    uint64_t h[] = {a.runs, a.steps, a.switches, a.threads, a.checks, a.sim_ns, a.nontrivial, a.faulty};
    fwrite(h, sizeof h, 1, f); fwrite(a.faults, sizeof a.faults, 1, f);
    auto m = [&](const std::map<std::string, uint64_t> &x) { uint64_t n = x.size(); fwrite(&n, 8, 1, f); for (auto &[k, v] : x) { char b[64]{}; snprintf(b, 64, "%s", k.c_str()); fwrite(b, 64, 1, f); fwrite(&v, 8, 1, f); } };
    m(a.probes); m(a.scen_runs);
    auto u = [&](const std::unordered_set<uint64_t> &x) { uint64_t n = x.size(); fwrite(&n, 8, 1, f); for (auto v : x) fwrite(&v, 8, 1, f); };
    u(a.sched); u(a.states);
    uint64_t n = a.samples.size(); fwrite(&n, 8, 1, f);
    for (auto &[k, v] : a.samples) { uint64_t l = v.size(); fwrite(&k, 8, 1, f); fwrite(&l, 8, 1, f); fwrite(v.data(), 1, l, f); }
}
static bool get(FILE *f, Agg &a) {
    uint64_t h[8]; if (fread(h, sizeof h, 1, f) != 1) return false;
    a.runs += h[0]; a.steps += h[1]; a.switches += h[2]; a.threads += h[3]; a.checks += h[4]; a.sim_ns += h[5]; a.nontrivial += h[6]; a.faulty += h[7];
    uint64_t ft[F_COUNT]; if (fread(ft, sizeof ft, 1, f) != 1) return false;
    for (unsigned i = 0; i < F_COUNT; ++i) a.faults[i] += ft[i];
    auto m = [&](std::map<std::string, uint64_t> &x) { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) return; while (n--) { char b[64]; uint64_t v; if (fread(b, 64, 1, f) != 1 || fread(&v, 8, 1, f) != 1) return; x[b] += v; } };
    m(a.probes); m(a.scen_runs);
    auto u = [&](std::unordered_set<uint64_t> &x) { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) return; while (n--) { uint64_t v; if (fread(&v, 8, 1, f) != 1) return; x.insert(v); } };
    u(a.sched); u(a.states);
    uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) return false;
    while (n--) { uint64_t k, l; if (fread(&k, 8, 1, f) != 1 || fread(&l, 8, 1, f) != 1 || l > 100000) return false; std::string v(l, 0); if (fread(&v[0], 1, l, f) != l) return false; a.samples[k] = v; }
    return true;
}

// One simulated run written out: what was decided and what happened.
static std::string describe(uint64_t i, uint64_t seed, RunResult *r) {
    char b[512]; std::string o;
    snprintf(b, sizeof b, "run %llu scenario=%s seed=%llu execution=%016llx scheduling_points=%llu thread_switches=%llu threads=%llu checks=%llu simulated_s=%.6f outcome=%s", (unsigned long long)i, r->scenario, (unsigned long long)seed, (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->threads, (unsigned long long)r->checks, double(r->sim_ns) / 1e9, r->status ? r->kind : "held");
    o = b; o += " faults={";
    for (unsigned k = 0; k < F_COUNT; ++k) if (r->faults[k]) { snprintf(b, sizeof b, "%s:%llu ", fault_names[k], (unsigned long long)r->faults[k]); o += b; }
    o += "}"; static const char *const nm[] = {"work", "sched", "fault", "net", "mem"};
    for (unsigned s = 0; s < STREAM_COUNT; ++s) {
        uint32_t n = std::min(r->nchoices[s], CAP); if (!n) continue;
        snprintf(b, sizeof b, " %s(%u non-default)=", nm[s], n); o += b;
        for (uint32_t k = 0; k < n && k < 12; ++k) { snprintf(b, sizeof b, "%s%u:%u", k ? "," : "", r->choices(s)[k].idx, r->choices(s)[k].val); o += b; }
    }
    return o;
}
static unsigned scenario_of(uint64_t i) {
    uint64_t tot = 0; for (unsigned k = 0; k < nscen; ++k) tot += scen[k].weight;
    uint64_t v = mix64(opt.seed * 1000003 + i * 7 + 5) % tot;
    for (unsigned k = 0; k < nscen; ++k) { if (v < scen[k].weight) return k; v -= scen[k].weight; }
    return 0;
}
static uint64_t seed_of(uint64_t i) { return mix64(mix64(opt.seed) + i); }

int main(int argc, char **argv) {
    // Same addresses in every execution, where the sandbox permits it.
    if (int p = personality(0xffffffff); p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--runs") opt.runs = strtoull(nx(), nullptr, 10); else if (a == "--seed") opt.seed = strtoull(nx(), nullptr, 10);
        else if (a == "--jobs") opt.jobs = unsigned(atoi(nx())); else if (a == "--time") opt.time_cap = atof(nx());
        else if (a == "--report") opt.report = nx(); else if (a == "--replay-out") opt.replay_out = nx(); else if (a == "--replay") opt.replay = nx();
        else if (a == "--only") opt.only = nx(); else if (a == "--no-min") opt.no_min = true; else if (a == "--one") opt.one = atol(nx());
        else if (a == "--cpu-limit") opt.cpu_limit = unsigned(atoi(nx())); else if (a == "--scratch") opt.scratch = nx(); else if (a == "--no-shadow") opt.noshadow = true; else if (a == "-v") opt.verbose = true;
        else if (a == "--list") { for (unsigned k = 0; k < nscen; ++k) printf("%s\n", scen[k].name); return 0; }
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    std::sort(scen, scen + nscen, [](auto &x, auto &y) { return strcmp(x.name, y.name) < 0; });
    if (!opt.only.empty()) { for (unsigned k = 0; k < nscen; ++k) if (opt.only == scen[k].name) { scen[0] = scen[k]; scen[0].weight = 1; nscen = 1; break; } }
    if (!nscen) { fprintf(stderr, "no scenarios\n"); return 3; }

    if (!opt.replay.empty()) {
        std::string scn, kind, hash; uint64_t seed = 0; Trace t;
        if (!read_replay(opt.replay, scn, seed, t, kind, hash)) { fprintf(stderr, "cannot read replay file\n"); return 3; }
        unsigned k = 0; while (k < nscen && scn != scen[k].name) ++k;
        if (k == nscen) { fprintf(stderr, "unknown scenario %s\n", scn.c_str()); return 3; }
        auto *r = new_rr();
        run_child(r, k, seed, &t, true);
        char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)r->hash);
        printf("replay scenario=%s status=%d kind=%s hash=%s\n%s\n", scn.c_str(), r->status, r->kind, h, r->msg);
        if (opt.verbose) printf("%.*s", int(r->trace_len), r->trace);
        if (!r->status) return 0;
        return kind == r->kind && hash == h ? 1 : 4;
    }
    if (opt.one >= 0) {
        auto *r = new_rr(); unsigned k = scenario_of(uint64_t(opt.one));
        for (int rep = 0; rep < 2; ++rep) {
            run_child(r, k, seed_of(uint64_t(opt.one)), nullptr, true);
            printf("run %ld scenario=%s status=%d kind=%s hash=%016llx steps=%llu switches=%llu threads=%llu sim=%.6fs\n%s\n", opt.one, r->scenario, r->status, r->kind, (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->threads, double(r->sim_ns) / 1e9, r->msg);
        }
        printf("%.*s", int(r->trace_len), r->trace);
        return r->status;
    }

    double t0 = wall();
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->best = UINT64_MAX; sh->next = 0;
    std::vector<pid_t> ws;
    std::string tmp = opt.scratch + "/simagg-" + std::to_string(getpid());
    cpu_set_t allowed; CPU_ZERO(&allowed); sched_getaffinity(0, sizeof allowed, &allowed);
    std::vector<int> cpus; for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &allowed)) cpus.push_back(c);
    for (unsigned w = 0; w < opt.jobs; ++w) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (!cpus.empty()) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpus[w % cpus.size()], &s); sched_setaffinity(0, sizeof s, &s); }
            auto *r = new_rr(); Agg a; uint64_t nd = 0;
            for (;;) {
                uint64_t i = __sync_fetch_and_add(&sh->next, 1);
                if (i >= opt.runs || i > sh->best) break;
                if (opt.time_cap > 0 && wall() - t0 > opt.time_cap) break;
                unsigned k = scenario_of(i);
                run_child(r, k, seed_of(i), nullptr, false);
                add(a, r);
                if (i < 6) a.samples[i] = describe(i, seed_of(i), r);
                if (r->status) { uint64_t b; do { b = sh->best; if (i >= b) break; } while (!__sync_bool_compare_and_swap(&sh->best, b, i)); }
                else if (i % 64 == 7) { // determinism self-check
                    uint64_t h = r->hash; run_child(r, k, seed_of(i), nullptr, false);
                    if (r->hash != h) { fprintf(stderr, "sim: run %llu (%s) is not deterministic\n", (unsigned long long)i, scen[k].name); _exit(5); }
                    ++nd;
                }
            }
            a.probes["sim.determinism_selfchecks"] += nd;
            FILE *f = fopen((tmp + "." + std::to_string(w)).c_str(), "wb"); if (!f) _exit(3);
            put(f, a); fclose(f);
            _exit(0);
        }
        ws.push_back(p);
    }
    Agg a; int bad = 0;
    for (unsigned w = 0; w < opt.jobs; ++w) {
        int st; while (waitpid(ws[w], &st, 0) < 0 && errno == EINTR) {}
        std::string fn = tmp + "." + std::to_string(w);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = WIFEXITED(st) ? WEXITSTATUS(st) : 9;
        FILE *f = fopen(fn.c_str(), "rb"); if (f) { get(f, a); fclose(f); }
        unlink(fn.c_str());
    }
    double t1 = wall();
    int rc = 0; auto *r = new_rr(); std::string vmsg, vkind, vscen; uint64_t orig_choices = 0, min_choices = 0, min_runs = 0;
    if (sh->best != UINT64_MAX) {
        uint64_t i = sh->best; unsigned k = scenario_of(i); uint64_t seed = seed_of(i);
        run_child(r, k, seed, nullptr, false);
        uint64_t h1 = r->hash; std::string k1 = r->kind; int s1 = r->status;
        run_child(r, k, seed, nullptr, false);
        if (!s1 || !r->status || r->hash != h1 || k1 != r->kind) { fprintf(stderr, "sim: failure of run %llu does not reproduce from its seed (%s/%s)\n", (unsigned long long)i, k1.c_str(), r->kind); rc = 2; }
        else if (k1 == "harness") { fprintf(stderr, "sim: harness error: %s\n", r->msg); rc = 2; }
        else {
            Trace best = take(r);
            auto count = [](const Trace &t) { uint64_t n = 0; for (auto &s : t.s) n += s.size(); return n; };
            orig_choices = count(best);
            bool cap = overflowed(r);
            // Confirm that the recorded choices alone reproduce it.
            if (!cap) run_child(r, k, seed, &best, false);
            if (cap || !r->status || k1 != r->kind) { fprintf(stderr, "sim: recorded choices do not reproduce run %llu (%s vs %s)\n", (unsigned long long)i, k1.c_str(), r->kind); rc = 2; }
            else {
                double m0 = wall(); double mcap = 20;
                // Delta debugging: zero chunks of non-default choices, stream by stream.
                static const unsigned order[] = {STREAM_MEM, STREAM_SCHED, STREAM_FAULT, STREAM_NET, STREAM_WORK};
                for (int pass = 0; pass < 2 && !opt.no_min && !is_hang(r); ++pass) for (unsigned s : order) {
                    for (size_t c = best.s[s].size(); c >= 1 && !best.s[s].empty(); c = std::min(c, best.s[s].size()) / 2) {
                        for (size_t pos = 0; pos < best.s[s].size();) {
                            if (wall() - m0 > mcap) goto done;
                            Trace t = best; size_t e = std::min(pos + c, t.s[s].size());
                            t.s[s].erase(t.s[s].begin() + long(pos), t.s[s].begin() + long(e));
                            run_child(r, k, seed, &t, false); ++min_runs;
                            if (r->status && k1 == r->kind && !overflowed(r)) best = t;
                            else pos = e;
                        }
                    }
                }
            done:
                min_choices = count(best);
                run_child(r, k, seed, &best, true);
                if (!r->status || k1 != r->kind) { fprintf(stderr, "sim: minimised trace does not reproduce\n"); rc = 2; }
                else {
                    rc = 1; vmsg = r->msg; vkind = r->kind; vscen = r->scenario;
                    if (!opt.replay_out.empty()) write_replay(opt.replay_out, r, seed, best, i);
                    printf("VIOLATION-FOUND scenario=%s run=%llu kind=%s choices=%llu->%llu (%llu minimisation runs)\n%s\n", vscen.c_str(), (unsigned long long)i, vkind.c_str(), (unsigned long long)orig_choices, (unsigned long long)min_choices, (unsigned long long)min_runs, vmsg.c_str());
                }
            }
        }
    }
    if (bad && rc == 0) { fprintf(stderr, "sim: worker failed with %d\n", bad); rc = 2; }
    if (!opt.report.empty()) {
        FILE *f = fopen(opt.report.c_str(), "w"); if (!f) return 3;
        fprintf(f, "{\"rc\":%d,\"runs\":%llu,\"search_wall_s\":%.3f,\"wall_s\":%.3f,\"steps\":%llu,\"switches\":%llu,\"threads\":%llu,\"checks\":%llu,\"sim_s\":%.6f,\"nontrivial_runs\":%llu,\"faulty_runs\":%llu,\"distinct_executions\":%zu,\"distinct_states\":%zu,\"seed\":%llu,",
                rc, (unsigned long long)a.runs, t1 - t0, wall() - t0, (unsigned long long)a.steps, (unsigned long long)a.switches, (unsigned long long)a.threads, (unsigned long long)a.checks, double(a.sim_ns) / 1e9, (unsigned long long)a.nontrivial, (unsigned long long)a.faulty, a.sched.size(), a.states.size(), (unsigned long long)opt.seed);
        fprintf(f, "\"faults\":{"); bool c = false; for (unsigned i = 0; i < F_COUNT; ++i) if (a.faults[i]) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", fault_names[i], (unsigned long long)a.faults[i]); c = true; }
        fprintf(f, "},\"probes\":{"); c = false; for (auto &[k, v] : a.probes) { if (c) fputc(',', f); esc(f, k.c_str()); fprintf(f, ":%llu", (unsigned long long)v); c = true; }
        fprintf(f, "},\"scenario_runs\":{"); c = false; for (auto &[k, v] : a.scen_runs) { if (c) fputc(',', f); esc(f, k.c_str()); fprintf(f, ":%llu", (unsigned long long)v); c = true; }
        fprintf(f, "},\"samples\":["); c = false; for (auto &[k, v] : a.samples) { if (c) fputc(',', f); esc(f, v.c_str()); c = true; }
        fprintf(f, "]");
        if (rc == 1) { fprintf(f, ",\"violation\":{\"scenario\":"); esc(f, vscen.c_str()); fprintf(f, ",\"kind\":"); esc(f, vkind.c_str()); fprintf(f, ",\"message\":"); esc(f, vmsg.c_str()); fprintf(f, ",\"run\":%llu,\"choices\":%llu,\"minimised_choices\":%llu,\"minimisation_runs\":%llu}", (unsigned long long)sh->best, (unsigned long long)orig_choices, (unsigned long long)min_choices, (unsigned long long)min_runs); }
        fprintf(f, "}\n"); fclose(f);
    }
    return rc;
}
