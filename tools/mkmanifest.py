#!/usr/bin/env python3
"""Authoring source of MANIFEST.json (run by hand)."""
import json
NOTE = {
 "C01": "Seeded search over reader interleavings at single memory accesses, build histories and memory layouts, against bit-array models.",
 "C02": "Seeded search over reader interleavings, failing allocations and histories, against explicit parenthesis/array models.",
 "C03": "Seeded search over reader interleavings and histories, against plain arrays of the values.",
 "C04": "Seeded search over interleavings and operation sequences of many cursors, against reference cursors.",
 "C05": "Seeded search over interleavings of concurrent builds, against models and against images built alone in another process life.",
 "C06": "Seeded search over freeze/restart/map/remap/unmap histories with interrupted writes, read-only guarded images and concurrent readers.",
 "C07": "Seeded search over I/O error, disk-full and death points under the real ofstream, against the fault-free image; then retry.",
 "C08": "Seeded search over streams of structures with interrupted writes and concurrent streams; all byte counts cross-checked.",
 "C09": "Seeded search over build histories, memory contents and origins in separate process lives; images compared byte for byte.",
 "C10": "Seeded search over chains of process lives of four builds of the library, the vendored release among them.",
 "C11": "Seeded search over texts and read schedules (short, stalled, failing) and interleavings of readers.",
 "C12": "Seeded search over texts, iterator histories, interleavings, open/map/allocation failures; handles and memory accounted.",
 "C13": "Seeded search over edit histories with failing allocations, every intermediate state compared with a list of bits.",
 "C14": "Seeded search over failing allocations and throwing inputs at every position, with leak accounting, bystanders and retry.",
 "C19": "Seeded search over reader interleavings and contents with every allocation failing and small guarded stacks.",
 "C20": "Seeded search over suspension points of one or more threads; completion of the others within a step bound, exact answers.",
 "C21": "Seeded search over interleavings, suspensions and large contents; own steps of every call against a bound about eight times what the library needs.",
 "C22": "Seeded search over points of interruption and over calls nested in the caller's iterators, comparators and streams, against models and images made alone.",
 "C23": "Seeded search over contents, construction routes, builder histories, texts, failures and schedules; own steps, requested and held bytes of every call against linear bounds about eight times what the library needs.",
 "C15": "Seeded search over object lives mixing owned and mapped content, with allocator and read-only-memory checks.",
}
NA = {
 "C16": "Pure functions of one 64-bit word: no schedule, time, I/O, allocation or history for a simulation to control; seeded simulation would only be random testing. They run inside every other check in three configurations, but are not decided on their own.",
 "C17": "Pure functions of their argument (encode/decode into a caller's buffer, sign mapping): nothing nondeterministic for a simulator to own.",
 "C18": "A static bound on the size of the result as a function of the input alone; no schedule, fault, crash or history enters it.",
}
m = {"version": 1, "setup_cmd": "python3 build.py /tmp/succinct-sim-setup && rm -rf /tmp/succinct-sim-setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": "deterministic simulation with fault injection (seeded schedules and faults, reference model)",
                 "level": "exploration",
                 "level_note": NOTE[p] + " Samples executions; what no seed reached is not decided. Assumes sequentially consistent memory and that code inside precompiled libraries is not preempted."} for p in sorted(NOTE)],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: all seams are link-time or compile-time (instrumentation, interposed libc calls, replaced operator new). The checks build the library from /repo's working tree with their own flags."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
