#!/usr/bin/env python3
"""check.py PROPERTY  -- seeded search for a violation of one property by deterministic simulation.
Exit 0: none found.  Exit 1 and a VIOLATION line: found, replayed, minimised.  Exit 2: the check itself failed."""
import concurrent.futures, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
NW = 8
REAL = ["all of /repo/include (SuRF, SuRFBuilder, LoudsDense, LoudsSparse, bit vectors, rank/select, label and suffix vectors, hash) and the "
        "benchmark's filters and converters (bench/bench.hpp, filter_*.hpp, bloom.hpp), compiled unmodified, once with clang -O1 and assertions and once with gcc -O3 -DNDEBUG",
        "libstdc++ containers and strings used by it"]
STUBS = ["heap (operator new/delete, malloc family): simulated arena with seeded contents, layout and failures",
         "thread scheduler: real threads, one runs at a time, switches decided by the seed at memory accesses",
         "mutexes, rwlocks, pthread_once, static-initialisation guards, atomics: simulated",
         "disk and process death: simulated files with sectors, sync, rename; every process generation is a forked process",
         "caller: the generated history, its buffers and query strings"]
if len(sys.argv) > 1 and sys.argv[1] == "P18":
    REAL.append("bench/workload.cpp and bench/workload_multi_thread.cpp (the latter with VERBOSE), whole, main included; libstdc++ file streams down to read()")
    STUBS.append("fopen, open and read of input files: simulated files with short, interrupted and failing reads; pthread_create, join and exit: simulated threads; gettimeofday: simulated clock; standard output: collected")
RULES = {
    "P01": "a run is non-trivial if it made point queries for stored keys",
    "P02": "a run is non-trivial if it made range queries",
    "P03": "a run is non-trivial if absent keys were probed or a positive answer for an absent key was examined",
    "P04": "a run is non-trivial if it made seeks",
    "P05": "a run is non-trivial if positions were stepped",
    "P06": "a run is non-trivial if ranges were counted",
    "P07": "a run is non-trivial if at least one filter was restored from an image",
    "P08": "a run is non-trivial if at least two images were compared",
    "P09": "a run is non-trivial if a caller was preempted inside a call or between calls of a parallel phase",
    "P10": "a run is non-trivial if an allocation failure was injected",
    "P11": "a run is non-trivial if filters were destroyed after checked accesses",
    "P12": "a run is non-trivial if positions were asked to report their key, suffix and order",
    "P13": "a run is non-trivial if the size of at least one filter was checked",
    "P14": "a run is non-trivial if integers were converted",
    "P15": "a run is non-trivial if the work of at least one call was measured",
    "P17": "a run is non-trivial if a vector was built and asked",
    "P19": "a run is non-trivial if a builder's vectors were compared with the trie of its keys",
    "P18": "a run is non-trivial if a program or the loader read at least one key file",
    "P16": "a run is non-trivial if a benchmark filter was built and asked",
}
FAULTS = ["alloc_failures_injected", "process_crashes", "crashes_during_save", "disk_io_errors", "disk_full", "disk_short_writes", "torn_sector_writes",
          "lost_unsynced_writes", "unsynced_writes_persisted", "unaligned_placements", "scribbled_buffers", "freed_buffers", "short_reads", "interrupted_reads", "read_errors", "missing_files", "threads_not_created", "heap_contents_randomised",
          "heap_reuse_runs", "context_switches", "preemptions", "stalled_callers"]


def build(out, prop):
    if prop != "P18":
        os.environ["NOPROGS"] = "1"            # the benchmark programs are built for the check that runs them
    obj = os.path.join(HERE, ".build", "obj")
    r = subprocess.run(["bash", os.path.join(HERE, "sim", "build.sh"), out, "none", obj], capture_output=True, text=True)
    if r.returncode:
        print("HARNESS-ERROR: simulator does not build\n" + r.stderr[-3000:])
        sys.exit(2)
    ps = {v: subprocess.Popen(["bash", os.path.join(HERE, "sim", "build.sh"), out, v, obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for v in "AB"}
    bad = ""
    for v, p in ps.items():
        o, _ = p.communicate()
        if p.returncode:
            bad += o[-3000:]
    if bad:
        print("HARNESS-ERROR: /repo does not build\n" + bad)
        sys.exit(2)
    return {v: os.path.join(out, "surfsim-" + v) for v in "AB"}


def replay(exe, path, prop):
    r = subprocess.run([exe, "replay", path, "--prop", prop], capture_output=True, text=True, timeout=700)
    h = [l for l in r.stdout.splitlines() if l.startswith("result-hash")]
    return r.returncode == 1 and "REPRODUCED" in r.stdout, (h or ["?"])[0], r.stdout


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("SURFSIM_SECONDS", "600" if tier == "thorough" else "28"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="surfsim-")
    try:
        exe = build(tmp, prop)
        tb = time.time() - t0
        procs = []
        for i in range(NW):
            v = "A" if i % 8 in (0, 1, 3, 4, 6) else "B"
            cmd = [exe[v], "run", "--prop", prop, "--variant", v, "--from", str(seed * 100000000 + 1 + i), "--step", str(NW), "--time", str(secs),
                   "--profile", "1" if tier == "thorough" else "0", "--cpu", str(i), "--out", os.path.join(tmp, "found-%d.plan" % i), "--hashes", os.path.join(tmp, "hash-%d" % i)]
            procs.append((i, v, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))

        def wait(x):
            i, v, p = x
            o, e = p.communicate()
            return i, v, p.returncode, o, e
        stats, found, errs = [], [], []
        with concurrent.futures.ThreadPoolExecutor(NW) as ex:
            futs = [ex.submit(wait, x) for x in procs]
            for f in concurrent.futures.as_completed(futs):
                i, v, rc, o, e = f.result()
                st = [l for l in o.splitlines() if l.startswith("STATS ")]
                if st:
                    stats.append((v, json.loads(st[0][6:])))
                elif not (found and rc < 0):
                    errs.append("worker %d (%s) ended with %s: %s" % (i, v, rc, e[-500:]))
                if rc == 1:
                    found.append((i, v, [l for l in o.splitlines() if l.startswith("FOUND")][0]))
                    # give the others a moment: a second independent finding is a fallback
                    for _, _, p in procs:
                        if p.poll() is None:
                            time.sleep(0.3)
                            p.terminate()
        tsearch = time.time() - t0 - tb
        result, nviol, unrepro, line = 0, 0, 0, None
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v, text in found:
            src = os.path.join(tmp, "found-%d.plan" % i)
            ok1, h1, o1 = replay(exe[v], src, prop)
            ok2, h2, o2 = replay(exe[v], src, prop)
            if not (ok1 and ok2):
                unrepro += 1
                print("not reproduced in a fresh process:", text)
                continue
            if h1 != h2:
                print("note: the violation reproduces, the rest of the execution differs between replays")
            dst = os.path.join(HERE, "replays", "%s-seed%s-%s.plan" % (prop, text.split("seed=")[1].split()[0], v))
            shutil.copy(src, dst)
            mini = os.path.join(tmp, "mini.plan")
            try:
                r = subprocess.run([exe[v], "minimise", src, mini, "--time", "45", "--variant", v, "--cpu", str(i)], capture_output=True, text=True, timeout=300)
                print(r.stdout.strip())
                if r.returncode == 0:
                    a, ha, oa = replay(exe[v], mini, prop)
                    b, hb, ob = replay(exe[v], mini, prop)
                    if a and b and ha == hb:
                        shutil.copy(mini, dst)
                        o1 = oa
            except subprocess.TimeoutExpired:
                print("minimisation timed out; the replay file is the unminimised execution")
            print(o1.strip())
            print("variant %s; replay with: /verif/replay.sh %s" % (v, dst))
            line = "VIOLATION property=%s replay=%s" % (prop, dst)
            result, nviol = 1, nviol + 1
            break
        C = {}
        for _, s in stats:
            for k, n in s["counters"].items():
                C[k] = C.get(k, 0) + n
        runs = sum(s["runs"] for _, s in stats)
        res, sched = set(), set()
        for i in range(NW):
            p = os.path.join(tmp, "hash-%d" % i)
            if os.path.exists(p):
                b = open(p, "rb").read()
                for o in range(0, len(b) - 8, 9):
                    (res if b[o:o + 1] == b"R" else sched).add(b[o + 1:o + 9])
        cov = None
        for v, s in stats:
            if v == "A":
                m = int(s["cov"], 2) if s["cov"] else 0
                cov = m if cov is None else cov | m
        edges_total = max([s["edges_total"] for v, s in stats if v == "A"] or [0])
        fam = {}
        for _, s in stats:
            for k, n in s["families"].items():
                fam[k] = fam.get(k, 0) + n
        nondet = sum(s["nondeterministic"] for _, s in stats)
        others = sum(s["other_violations"] for _, s in stats)
        samples = [s["sample"] for _, s in stats if s["sample"]][:2] or ["(no run small enough to print)"]
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": nviol,
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(res),
                "rule": "One evaluation is one seeded simulated execution: key sets, configuration, call history, process generations, faults and schedule all follow from its seed. "
                        + RULES[prop] + "; distinct means a different hash over everything observed (answers, positions, images, allocator and scheduler history).",
                "samples": samples,
                "runs_per_hour": round(runs / max(tsearch, 0.1) * 3600),
                "seeds_per_hour": round(runs / max(tsearch, 0.1) * 3600),
                "simulated_time": {"unit": "memory-access events of the code under test (the library has no clock or timer)", "events": C.get("events", 0),
                                   "calls": sum(C.get(k, 0) for k in ("lookups", "range_queries", "seeks", "steps", "position_reports", "counts", "builds", "restores", "images", "destroys"))},
                "faults_injected": {k: C.get(k, 0) for k in FAULTS},
                "distinct_interleavings": {"measure": "different hashes of (call, event number, next thread) over all context switches of a run with parallel phases", "count": len(sched)},
                "edges_reached": {"measure": "control-flow edges of the instrumented library and its template instantiations (variant A)", "count": bin(cov or 0).count("1"), "of": edges_total},
                "counters": C,
                "key_set_families": fam,
                "largest_share_of_allowed_work": {n: max([s["work"][k] for _, s in stats] or [0]) for k, n in enumerate(
                    ("point query", "range query", "seek", "step", "count", "build", "save or restore"))},
                "largest_key_set": max([s["max_keys"] for _, s in stats] or [0]),
                "replayed_for_determinism": {"runs_executed_twice": sum((s["runs"] + 63) // 64 for _, s in stats), "differing": nondet},
                "findings_not_reproduced": unrepro,
                "runs_violating_only_other_properties": others,
                "real_components": REAL, "stub_components": STUBS,
                "workers": NW, "build_s": round(tb, 1),
            },
            "assumptions": ["keys are non-empty byte strings, sorted, and queries are byte strings; suffix lengths add up to at most 64 bits",
                            "seeded search: only the executions generated from the seeds were judged",
                            "context switches happen at instrumented memory accesses, atomics and locks under sequential consistency",
                            "the reference model in sim/model.cpp states the documented semantics correctly"],
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        print("%s: %d runs (%d distinct non-trivial) in %.1f s, %d events, %d interleavings, %d/%d edges" %
              (prop, runs, len(res), tsearch, C.get("events", 0), len(sched), bin(cov or 0).count("1"), edges_total))
        if others:
            print("%d runs broke only other properties, e.g. %s" % (others, [s["other_text"] for _, s in stats if s["other_text"]][0]))
        if line:
            print(line)
            return 1
        need = {"P16": "benchmark_filters", "P17": "vectors_built", "P18": "programs_run", "P19": "builders_checked"}.get(prop)
        if need and not C.get(need):
            errs.append("%s is 0: the interface this check drives does not compile against /repo, so nothing was judged" % need)
        if not res:
            errs.append("no run exercised the property")
        if errs or unrepro or (nondet and not others):
            for e in errs:
                print("HARNESS-ERROR:", e)
            if unrepro:
                print("HARNESS-ERROR: %d findings did not reproduce" % unrepro)
            if nondet:
                print("HARNESS-ERROR: %d runs gave different results when executed twice" % nondet)
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
