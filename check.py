#!/usr/bin/env python3
"""Builds the simulation for one property from /repo's working tree, runs the
seeded search (or replays a file) and writes the evidence.

  check.py P01 [--tier quick|thorough] [--replay FILE]
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
import config
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++"
JOBS = os.cpu_count() or 8

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def gen_settings(d, double=False):
    os.makedirs(os.path.join(d, "edyn"), exist_ok=True)
    src = os.path.join(REPO, "cmake/in/build_settings.h.in")
    out = []
    for line in open(src):
        if line.startswith("#cmakedefine"):
            name = line.split()[1]
            if name == "EDYN_DISABLE_PROFILING" or (double and name == "EDYN_DOUBLE_PRECISION"): out.append("#define %s\n" % name)
        else: out.append(line)
    for p in ("edyn/build_settings.h",):
        open(os.path.join(d, p), "w").writelines(out)

def all_sources():
    r = []
    for root, _, fs in os.walk(os.path.join(REPO, "src/edyn")):
        for f in fs:
            p = os.path.join(root, f)
            if f.endswith(".cpp") and "/windows/" not in p: r.append(os.path.relpath(p, REPO))
    return sorted(r)

def weights():
    try: return json.load(open(os.path.join(HERE, "checks/weights.json")))
    except Exception: return {}

def build(pid, cfg, bdir):
    if os.path.isdir(bdir): shutil.rmtree(bdir)
    os.makedirs(bdir)
    gen_settings(os.path.join(bdir, "gen"))
    inc = ["-I" + os.path.join(HERE, "entt"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(bdir, "gen"), "-I" + os.path.join(bdir, "gen/edyn")]
    mem = cfg.get("mem", False)
    instr = ["-fsanitize=thread"] + ([] if mem else ["-mllvm", "-tsan-instrument-memory-accesses=0"]) + ["-mllvm", "-tsan-instrument-func-entry-exit=0"]
    base = ["-std=c++17", "-ftrivial-auto-var-init=pattern", "-w", "-Wno-narrowing", "-DEDYN_DEBUG", "-fno-omit-frame-pointer", "-pthread"] + cfg.get("defs", [])
    O = cfg.get("opt", "-O1")
    jobs = []  # (output, cmd, members)
    def obj(n): return os.path.join(bdir, n + ".o")
    for s in ("sim.cpp", "sim_main.cpp"):
        jobs.append((obj(s), [CXX, "-std=c++17", "-O2", "-w", "-pthread", "-fno-omit-frame-pointer", "-fno-threadsafe-statics", "-c", os.path.join(HERE, "sim", s), "-o", obj(s)], None))
    for s in cfg["harness"]:
        jobs.append((obj("h_" + s), [CXX] + base + [cfg.get("hopt", O)] + instr + inc + ["-I" + os.path.join(HERE, "checks"), "-c", os.path.join(HERE, "checks", s), "-o", obj("h_" + s)], None))
    srcs = [s for s in all_sources() if s not in cfg.get("drop", [])] if cfg["srcs"] == "ALL" else [s for s in cfg["srcs"] if os.path.exists(os.path.join(REPO, s))]
    def one(s): n = s.replace("/", "_"); return (obj(n), [CXX] + base + [O] + instr + inc + ["-c", os.path.join(REPO, s), "-o", obj(n)], None)
    if cfg["srcs"] == "ALL":
        w = weights(); nch = cfg.get("chunks", 10)
        bins = [[0.0, []] for _ in range(nch)]
        for s in sorted(srcs, key=lambda s: (-w.get(s, 1.0), s)):
            b = min(bins, key=lambda b: b[0]); b[0] += w.get(s, 1.0); b[1].append(s)
        for i, (_, ms) in enumerate(sorted(bins, key=lambda b: -b[0])):
            u = os.path.join(bdir, "u%d.cpp" % i)
            with open(u, "w") as f:
                for m in ms: f.write('#include "%s"\n' % os.path.join(REPO, m))
            jobs.append((obj("u%d" % i), [CXX] + base + [O] + instr + inc + ["-c", u, "-o", obj("u%d" % i)], ms))
    else:
        for s in srcs: jobs.append(one(s))
    objs = []
    def run(j):
        p = sh(j[1])
        return j, p.returncode, p.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        retry = []
        for j, rc, out in ex.map(run, sorted(jobs, key=lambda j: 0 if j[2] else 1)):
            if rc == 0: objs.append(j[0])
            elif j[2]: retry += [one(m) for m in j[2]]   # names clash when merged: compile one by one
            else: raise BuildError(out[-4000:])
        for j, rc, out in ex.map(run, retry):
            if rc: raise BuildError(out[-4000:])
            objs.append(j[0])
    exe = os.path.join(bdir, "sim")
    link = lambda extra: sh([CXX, "-rdynamic", "-pthread", "-o", exe] + objs + extra + ["-ldl"] + cfg.get("libs", []))
    p = link([])
    if p.returncode and "undefined reference" in p.stdout and cfg["srcs"] != "ALL":
        if os.environ.get("VERIF_SHOW_UNDEF"): print("\n".join(sorted(set(re.findall(r"undefined reference to `.*", p.stdout)))))
        # Offer more of the library to the linker: first the parts without ECS, then everything.
        done = []
        for group in (config.BASE, all_sources()):
            rest = [one(m) for m in group if m not in srcs and os.path.exists(os.path.join(REPO, m)) and obj(m.replace("/", "_")) not in done]
            with cf.ThreadPoolExecutor(JOBS) as ex: done += [j[0] for j, rc, out in ex.map(run, rest) if rc == 0]
            lib = os.path.join(bdir, "rest%d.a" % len(done)); sh(["ar", "rcs", lib] + done)
            p = link([lib])
            if p.returncode == 0 or "undefined reference" not in p.stdout: break
    if p.returncode: raise BuildError(p.stdout[-4000:])
    return exe

def known_findings():
    """Lines `known: {json}` of KNOWN_FINDINGS.txt; `fixed:` lines suppress nothing."""
    r = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            if line.startswith("known:"): r.append(json.loads(line[6:]))
    except FileNotFoundError: pass
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1")); ap.add_argument("--runs", type=int); ap.add_argument("--time", type=float); ap.add_argument("--only")
    a = ap.parse_args()
    cfg = config.CHECKS[a.pid]; t0 = time.time()
    bdir = os.path.join(HERE, "build", a.pid)
    scratch = tempfile.mkdtemp(prefix="edynsim-")
    try:
        try: exe = build(a.pid, cfg, bdir)
        except BuildError as e:
            print("BUILD-ERROR property=%s\n%s" % (a.pid, e)); return 2
        tb = time.time() - t0
        common = ["--scratch", scratch] + ([] if cfg.get("mem") else ["--no-shadow"]) + (["--cpu-limit", str(cfg["cpu"])] if "cpu" in cfg else [])
        if a.replay:
            env = dict(os.environ)
            for line in open(a.replay):
                if line.startswith("env ") and "=" in line:
                    for kv in line[4:].split(): k, v = kv.split("=", 1); env[k] = v
                if line.startswith("stream "): break
            p = subprocess.run([exe, "--replay", a.replay, "-v"] + common, env=env)
            if p.returncode == 1: print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
            return p.returncode if p.returncode in (0, 1) else 2
        rep_dir = os.path.join(HERE, "replays"); os.makedirs(rep_dir, exist_ok=True)
        passes = cfg.get("passes", [dict()])
        tier = "thorough" if a.tier == "thorough" else "quick"
        total = None; viol = None; details = []
        for k, ps in enumerate(passes):
            runs, cap = cfg[tier]
            runs = int(runs * ps.get("share", 1.0 / len(passes))); cap = cap * ps.get("share", 1.0 / len(passes))
            if a.runs: runs = a.runs
            if a.time: cap = a.time
            env = dict(os.environ); env.update(ps.get("env", {}))
            if ps.get("env"): env["SIM_ENV_NOTE"] = " ".join("%s=%s" % kv for kv in sorted(ps["env"].items()))
            rep = os.path.join(bdir, "report%d.json" % k); rpl = os.path.join(rep_dir, "%s-%s-%d.replay" % (a.pid, a.seed, k))
            if os.path.exists(rpl): os.unlink(rpl)
            p = subprocess.run([exe, "--runs", str(runs), "--time", str(cap), "--seed", a.seed, "--jobs", str(JOBS), "--report", rep, "--replay-out", rpl] + common + (["--only", a.only] if a.only else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sys.stdout.write(p.stdout)
            if p.returncode not in (0, 1): print("SIM-ERROR property=%s rc=%d" % (a.pid, p.returncode)); return 2
            r = json.load(open(rep)); r["pass"] = ps.get("name", "default"); details.append(r)
            if p.returncode == 1:
                # gate: the replay file must reproduce the same violation in a fresh process
                q = subprocess.run([exe, "--replay", rpl] + common, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode != 1:
                    print(q.stdout); print("SIM-ERROR property=%s replay file does not reproduce the violation" % a.pid); return 2
                viol = (r["violation"], rpl); break
        rc = 0; lines = []
        if viol:
            v, rpl = viol; known = None
            for f in known_findings():
                if f["property"] == a.pid and re.search(f["match_kind"], v["kind"]) and re.search(f["match_message"], v["message"]): known = f
            if known: lines.append("KNOWN-FINDING: property=%s %s" % (a.pid, known["what"]))
            else: lines.append("VIOLATION property=%s replay=%s" % (a.pid, rpl)); rc = 1
        else:
            # listed findings with a scenario of their own, which the search leaves out
            for f in known_findings():
                if f["property"] != a.pid or "scenario" not in f: continue
                rep = os.path.join(bdir, "known.json"); rpl = os.path.join(rep_dir, "%s-known.replay" % a.pid)
                p = subprocess.run([exe, "--runs", "1", "--jobs", "1", "--seed", a.seed, "--only", f["scenario"], "--report", rep, "--replay-out", rpl, "--no-min"] + common, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode not in (0, 1): print(p.stdout); print("SIM-ERROR property=%s rc=%d" % (a.pid, p.returncode)); return 2
                if p.returncode == 0: continue
                v = json.load(open(rep))["violation"]
                if re.search(f["match_kind"], v["kind"]) and re.search(f["match_message"], v["message"]): lines.append("KNOWN-FINDING: property=%s %s" % (a.pid, f["what"]))
                else: lines.append("VIOLATION property=%s replay=%s" % (a.pid, rpl)); rc = 1; viol = (v, rpl); break
        write_evidence(a, cfg, tier, details, tb, time.time() - t0, viol)
        for l in lines: print(l)
        if rc == 0:
            d = details; print("OK property=%s runs=%d executions=%d states=%d checks=%d build=%.1fs total=%.1fs" % (a.pid, sum(r["runs"] for r in d), sum(r["distinct_executions"] for r in d), sum(r["distinct_states"] for r in d), sum(r["checks"] for r in d), tb, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if not a.keep and os.path.isdir(bdir): shutil.rmtree(bdir, ignore_errors=True)

def write_evidence(a, cfg, tier, details, tb, wall, viol):
    def s(k): return sum(r[k] for r in details)
    def m(k):
        o = {}
        for r in details:
            for n, v in r[k].items(): o[n] = o.get(n, 0) + v
        return o
    sw = max(s("search_wall_s"), 1e-3)
    ev = {
        "property": a.pid, "tier": tier, "seed": int(a.seed), "level": "exploration",
        "coverage": {
            "evaluations": s("runs"), "property_evaluations": s("checks"), "distinct_nontrivial": min(s("nontrivial_runs"), s("distinct_executions")),
            "rule": "a simulated run counts as non-trivial when it evaluated at least one property check; distinct = different execution hash (sequence of scheduling points, thread switches, fault injections and mixed-in observations)",
            "samples": [x for r in details for x in r["samples"]][:8], "scenario_runs": m("scenario_runs"),
            "simulated_runs": s("runs"), "runs_per_hour": int(s("runs") / sw * 3600), "seeds_per_hour": int(s("runs") / sw * 3600),
            "simulated_seconds": round(s("sim_s"), 3), "scheduling_points": s("steps"), "thread_switches": s("switches"), "threads_created": s("threads"),
            "distinct_executions": s("distinct_executions"), "distinct_states": s("distinct_states"), "state_measure": cfg.get("state_measure", "hash recorded by the scenario of its observable outcome"),
            "runs_with_faults": s("faulty_runs"), "faults_injected": m("faults"), "probes": m("probes"),
            "real_components": cfg.get("real", "all sources compiled from /repo: " + (", ".join(cfg["srcs"]) if cfg["srcs"] != "ALL" else "every library source except windows/")),
            "stubbed_components": cfg.get("stub", "pthread, clock, sleep and file system calls (simulated); EnTT replaced by the stand-in in /verif/entt where included"),
            "build_s": round(tb, 1),
        },
        "assumptions": cfg.get("assumptions", ["sequentially consistent memory with happens-before race detection; weak-memory reorderings are reported as data races, not executed"]),
        "wall_s": round(wall, 2),
    }
    if viol: ev["violations"] = [{"kind": viol[0]["kind"], "message": viol[0]["message"], "replay": viol[1]}]
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, a.pid + ".json"), "w"), indent=1)

if __name__ == "__main__": sys.exit(main())
