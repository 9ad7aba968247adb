#!/usr/bin/env python3
# writes MANIFEST.json
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over simulated executions"
O = {
 "P01": ("checked against a reference model of the stored keys", "point queries for every stored key on fresh, restored, concurrently used and out-of-memory-survivor filters"),
 "P02": ("checked against a reference model", "range queries with derived bounds (absent neighbours, prefixes, extensions, empty bounds, all four bound kinds)"),
 "P03": ("checked against a reference model of the kept bits; hash suffixes by a Chernoff bound (false alarm below 1e-14 per filter)", "absent probes under stored prefixes and ranges between neighbours; the hash-suffix rate is judged per probe batch, so a slightly too high rate stays unseen"),
 "P04": ("position and flag checked against a reference model", "all four seeks with derived targets"),
 "P05": ("refinement of an ordered list, histories of several positions", "full sweeps both ways and random walks with copied, assigned and dropped positions"),
 "P06": ("checked against the exact count", "key ranges and pairs of positions"),
 "P07": ("process generations with crashes and a faulty simulated disk; restored filter compared with a fresh one call by call", "crash, torn, lost and short writes, EIO, ENOSPC around a conventional write-sync-rename-sync save written in the harness; unaligned, overwritten and freed buffers"),
 "P08": ("images compared across heaps, processes, duplicates, generations and concurrent callers", "byte equality of every pair of images of the same keys and configuration in a run"),
 "P09": ("seeded thread schedules at memory-access granularity, happens-before race detector, results compared with the same calls run alone", "2 to 4 callers, random, call-boundary, shared-write and priority schedules; sequential consistency"),
 "P10": ("seeded allocation failures, single and lasting, in every call", "the failing call, everything that existed before, and the repeated call are judged"),
 "P11": ("shadow memory on every access of the library, checked heap, growth over repeated cycles", "accesses by the library and its containers; leaks judged by growth over five build/use/save/restore/destroy cycles"),
 "P12": ("reported key, suffix, bit count and order checked against a reference model", "positions reached by seeks and steps on fresh and restored filters"),
 "P13": ("heap held, reported size and image size compared with the size of the encoding computed from a reference model", "fresh, restored and rebuilt filters over all configurations, up to a few thousand keys; slack 1000 bytes, 16 a level and 0.2 percent"),
 "P14": ("round trip and order of generated integers", "boundary and random integers, alone, from several callers at once and with failing allocations"),
 "P15": ("memory accesses of every call metered against a bound in key length and height only; step budgets end calls that do not", "all calls on key sets from one key to some thousands; the bound is about three times the work observed, so a constant factor below three stays unseen"),
 "P16": ("checked against the same reference model", "filters of all names built, asked and destroyed, alone, in parallel and with failing allocations"),
}
m = {"version": 1,
 "setup_cmd": "bash sim/build.sh .build/obj none .build/obj",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
   "evidence_file": "evidence/%s.json" % p, "technique": T + "; " + o[0], "level": "exploration",
   "level_note": "Explores seeded executions of the real library code, no exhaustiveness. Covers " + o[1] + ". Trusts the reference model, the simulated heap, scheduler and disk in sim/."}
   for p, o in O.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: the seams are the compiler's memory-access instrumentation and link-time replacement of allocation and lock functions. Replay: ./replay.sh FILE. Known findings: known-findings.txt (only repaired defects)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
