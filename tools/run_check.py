#!/usr/bin/env python3
"""Builds the simulation harnesses from /repo's working tree, explores seeds, gates and reports violations.

  run_check.py PROPERTY [--tier quick|thorough]     decide one property (used by MANIFEST.json)
  run_check.py --replay FILE [--trace]              re-execute a replay file
  run_check.py --build VARIANT...                   only build
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import VARIANTS, PLAN
NCPU = len(os.sched_getaffinity(0))
WORKERS = max(1, min(8, NCPU))
LIB = "/usr/lib/x86_64-linux-gnu"

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("_build", ".git", "build", "evidence", "seeded", "debug", "release"))
            for f in sorted(fs):
                if f.endswith((".h", ".cpp", ".c", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def run(cmd, log):
    with open(log, "w") as f:
        f.write(" ".join(cmd) + "\n"); f.flush()
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT).returncode

def compile_one(src, obj, flags, key):
    """object files are cached by the content of everything that can influence them"""
    out = os.path.join(BUILD, f"{obj}.{key}.o")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        rc = run(["g++"] + flags + ["-c", src, "-o", tmp], out + ".log")
        if rc:
            return None, out + ".log"
        os.rename(tmp, out)
    return out, None

SIM_FLAGS = ["-std=c++17", "-O2", "-g", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]
LIB_FLAGS = ["-O1", "-g", "-fsanitize=thread", "-fexceptions", "-DNDEBUG", "-DBOOST_ASIO_NO_DEPRECATED", "-DBOOST_CHRONO_HEADER_ONLY", "-pthread", "-w", "-ftemplate-backtrace-limit=2"]

def overlay():
    """Boost.Asio's strands announce their work to the io_context only after they have let others queue handlers behind
    them: a thread stopped exactly there lets the io_context run out of work and stop with handlers still queued. This is
    a race within Boost, whatever the library does: the copy used here takes its work a moment earlier, which closes it."""
    src = open("/usr/include/boost/asio/detail/impl/strand_service.ipp").read()
    a = "    impl->locked_ = true;\n    impl->mutex_.unlock();\n    impl->ready_queue_.push(op);\n"
    new = src.replace(a, "    io_context_impl_.work_started();\n" + a)
    for arg in ("false", "is_continuation"):
        b = f"    io_context_impl_.post_immediate_completion(impl, {arg});\n"
        new = new.replace(b, b + "    io_context_impl_.work_finished();\n")
    if new.count("work_started") != new.count("work_finished"): new = src
    d = os.path.join(BUILD, "overlay", "boost", "asio", "detail", "impl")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "strand_service.ipp")
    if not os.path.exists(out) or open(out).read() != new:
        tmp = f"{out}.{os.getpid()}.tmp"
        open(tmp, "w").write(new)
        os.rename(tmp, out)
    return "-I" + os.path.join(BUILD, "overlay"), sha(new)

def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    ov, ovk = overlay()
    # keep the cache small
    old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f != "overlay"), key=os.path.getmtime)
    for f in old[:-400]:
        try: os.unlink(f)
        except OSError: pass
    simk, hark, repok = tree_hash([VERIF + "/sim"]), tree_hash([VERIF + "/harness"]), tree_hash([REPO])
    jobs, objs = [], {}
    for v in variants:
        d = VARIANTS[v]
        for s in d["src"]:
            jobs.append((v, f"{VERIF}/harness/{s}", f"{v}-{os.path.basename(s)[:-4]}",
                         ["-std=" + d.get("std", "c++98")] + LIB_FLAGS + [ov, "-I" + REPO + "/include", "-I" + VERIF + "/harness", f'-DVARIANT="{v}"', "-DVP_REPO_DIR=" + REPO] + d.get("inc", []) + ["-D" + m for m in d.get("macros", [])] + d.get("flags", []),
                         sha(simk, hark, repok, ovk, d)))
    for f in ("core", "net", "main"):
        jobs.append((None, f"{VERIF}/sim/sim_{f}.cpp", f"sim_{f}", SIM_FLAGS, sha(simk)))
    jobs.append((None, f"{VERIF}/harness/model.cpp", "model", ["-std=c++17", "-O2", "-g"], sha(simk, hark)))
    with ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(lambda j: compile_one(j[1], j[2], j[3], j[4]), jobs))
    common = []
    for j, (o, log) in zip(jobs, res):
        if o is None:
            sys.stdout.write(open(log).read()[-3000:])
            print(f"ERROR: {j[1]} does not compile ({log})"); sys.exit(2)
        if j[0] is None: common.append(o)
        else: objs.setdefault(j[0], []).append(o)
    bins = {}
    def link(v):
        out = os.path.join(BUILD, f"{v}.{sha(*(objs[v] + common))}")
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}.tmp"
            extra = VARIANTS[v].get("libs", [])
            rc = run(["g++", "-no-pie", "-pthread"] + objs[v] + common + [f"{LIB}/libboost_{l}.a" for l in ("thread", "chrono", "system", "atomic")] + extra + ["-ldl", "-o", tmp], out + ".log")
            if rc:
                print(open(out + ".log").read()[-3000:]); print("ERROR: link failed"); sys.exit(2)
            os.rename(tmp, out)
        return v, out
    with ThreadPoolExecutor(WORKERS) as ex:
        for v, out in ex.map(link, variants): bins[v] = out
    return bins

def load_known():
    try: return json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError: return {"findings": [], "fixed": []}

def replay(path, trace=False):
    m = re.search(r"^harness (\S+)", open(path).read(), re.M)
    b = build([m.group(1)])[m.group(1)]
    r = subprocess.run([b, "--replay", path] + (["--trace"] if trace else []))
    return r.returncode

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": sys.exit(replay(a[1], "--trace" in a))
    if a and a[0] == "--build": print(build(a[1:])); return
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLAN[prop]
    jobs = [j for j in plan["jobs"]]
    only = os.environ.get("VP_ONLY")
    if only: jobs = [j for j in jobs if only in (j[0], j[1])]
    bins = build(sorted(set(j[0] for j in jobs)))
    tb = time.time() - t0
    budget = float(os.environ.get("VP_BUDGET", plan.get("quick_s", 28) if tier == "quick" else plan.get("thorough_s", 600)))
    wsum = sum(j[2] for j in jobs)
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
    stop = []
    def worker(w):
        outs = []
        order = list(range(len(jobs)))
        for n, k in enumerate(order):
            if stop: break
            v, sc, wt = jobs[k][:3]
            cap = jobs[k][3] if len(jobs[k]) > 3 else 10**9
            out = os.path.join(BUILD, f"out-{prop}-{os.getpid()}-{w}-{n}.json")
            rep = os.path.join(rdir, f"{prop}-{v}-{sc}-{seed}-{w}.txt")
            wall = budget * wt / wsum
            cmd = [bins[v], "--batch", "--base", str(seed * 1000003 + int(sha(v, sc), 16) % 1000000), "--start", str(w), "--stride", str(WORKERS), "--count", str(cap), "--wall", f"{wall:.2f}", "--cpu", str(w),
                   "--scenario", sc, "--out", out, "--replay-out", rep, "--min-budget", "25" if tier == "quick" else "90"]
            for kf in known: cmd += ["--known", kf["class"]]
            try: r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=wall + 400)
            except subprocess.TimeoutExpired: outs.append((v, sc, None, "worker timed out", rep)); continue
            try: d = json.load(open(out)); os.unlink(out)
            except Exception as e: outs.append((v, sc, None, f"worker failed: rc {r.returncode} {e} {r.stderr[-500:]!r}", rep)); continue
            outs.append((v, sc, d, None, rep))
            if d["violation"]: stop.append(1)
        return outs
    with ThreadPoolExecutor(WORKERS) as ex: allouts = [o for os_ in ex.map(worker, range(WORKERS)) for o in os_]
    # merge
    tot = dict(runs=0, ok=0, inconclusive=0, events=0, syncs=0, switches=0, preempts=0, stalls=0, sim_s=0.0)
    probes, ilv, states, samples, per, errs, vios, knownhits = {}, set(), set(), [], {}, [], [], {}
    cpu = 0.0
    for v, sc, d, e, rep in allouts:
        if d is None: errs.append(f"{v}/{sc}: {e}"); continue
        for k in tot: tot[k] += d[k]
        cpu += d["wall_s"]
        for k, (r, n) in d["probes"].items():
            p = probes.setdefault(k, [0, 0]); p[0] += r; p[1] += n
        ilv.update((v, sc, x) for x in d["ilv"]); states.update((sc, x) for x in d["states"])
        p = per.setdefault(f"{v}/{sc}", dict(runs=0, sim_s=0.0, cpu_s=0.0, hash=0)); p["runs"] += d["runs"]; p["sim_s"] += d["sim_s"]; p["cpu_s"] += d["wall_s"]; p["hash"] ^= d["hash"]
        if d["sample"] and not any(s["harness"] == v and s["scenario"] == sc for s in samples): samples.append(dict(harness=v, scenario=sc, **d["sample"]))
        if d["errors"]: errs.append(f"{v}/{sc}: {d['error']}")
        for k, (n, m) in d["known"].items(): h = knownhits.setdefault(k, [0, m]); h[0] += n
        if d["violation"]: vios.append((v, sc, d["violation"], rep))
    # gate: the replay file must reproduce the violation in a fresh process
    confirmed = []
    for v, sc, vi, rep in vios:
        r = subprocess.run([bins[v], "--replay", rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1 and b"REPRODUCED" in r.stdout: confirmed.append((v, sc, vi, rep))
        else: errs.append(f"{v}/{sc}: violation {vi['class']} did not reproduce from its replay file")
    for e in errs: print("NOTE:", e[:1500])
    for kf in known:
        n = sum(h[0] for k, h in knownhits.items() if k == kf["class"])
        print(f"KNOWN-FINDING: property={prop} {kf['what']}" + (f" (met in {n} runs)" if n else " (not met in this run)"))
    for v, sc, vi, rep in confirmed:
        print(f"  {v}/{sc} {vi['class']}: {vi['message']}  (seed index {vi['seed_index']}, {vi['decisions_before']} decisions minimised to {vi['decisions_after']})")
        print(f"VIOLATION property={prop} replay={rep}")
    missing = [p for p in plan.get("must_reach", []) if p not in probes]
    if missing and not confirmed and tier == "quick" and not only: print("NOTE: never reached in this run:", ", ".join(missing))
    wall = time.time() - t0
    faults = {k: {"runs": r, "times": n} for k, (r, n) in sorted(probes.items()) if k.startswith("fault.")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(ilv),
            "rule": "one evaluation is one seeded simulated run of the real library in its own process; it is non-trivial if the scheduler preempted or stalled a thread or a fault was injected, and distinct by the hash of its sequence of thread switches. " + plan["rule"],
            "samples": samples, "runs_passed": tot["ok"], "runs_inconclusive": tot["inconclusive"], "per_scenario": per,
            "simulated_s": round(tot["sim_s"], 3), "runs_per_hour": int(tot["runs"] / max(wall - tb, 0.1) * 3600), "seeds_per_cpu_hour": int(tot["runs"] / max(cpu, 0.1) * 3600),
            "memory_and_sync_events": tot["events"], "sync_points": tot["syncs"], "thread_switches": tot["switches"], "injected_preemptions": tot["preempts"], "injected_stalls": tot["stalls"],
            "faults_injected": faults, "reached": {k: {"runs": r, "times": n} for k, (r, n) in sorted(probes.items()) if not k.startswith("fault.")},
            "distinct_abstract_states": len(states), "never_reached": missing,
            "real_components": plan.get("real", "the whole library from /repo/include, Boost.Asio, Boost.Thread, the C++ runtime"),
            "stubs": plan.get("stubs", "kernel: threads' scheduling, clocks, sockets, epoll, timerfd, eventfd, heap"),
            "known_findings_met": {k: h[0] for k, h in knownhits.items()}, "notes": errs},
          "assumptions": plan.get("assumptions", []) + ["sequentially consistent memory (x86 reorderings of unsynchronised accesses are not modelled)", "preemption between instrumented memory accesses and at synchronisation points only"],
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {tot['runs']} runs ({len(ilv)} distinct non-trivial schedules), {tot['sim_s']:.0f} simulated s, {tot['preempts']} preemptions, {tot['stalls']} stalls, build {tb:.0f} s, total {wall:.0f} s: " + ("VIOLATED" if confirmed else "held"))
    if confirmed: sys.exit(1)
    if errs and tot["ok"] < max(8, tot["runs"] * 0.5): sys.exit(2)

if __name__ == "__main__": main()
