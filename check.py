#!/usr/bin/env python3
"""check.py <property>            decide a property by seeded simulation (quick or thorough by VERIF_TIER)
check.py --replay <file>       build and replay a recorded violation, print the outcome
check.py --selftest            same seeds, different worker counts: identical executions"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

NCPU = max(1, min(16, len(os.sched_getaffinity(0))))
TECH = "exploration"
# seconds of simulation, runs (whichever ends first)
BUDGET = {"quick": (80, 400000), "thorough": (1500, 4000000)}

REAL = ["every succinct structure, builder, cursor, mapper and util reader: real code compiled from /repo's working tree in three build configurations",
        "std::ofstream, stdio, boost::iostreams::mapped_file_source, boost::function, the C++ runtime: real code",
        "threads: real pthreads on simulator-owned stacks"]
STUB = ["thread scheduler: one thread runs at a time, preempted at instrumented edges, loads and stores as the plan says",
        "allocator: operator new/delete over an arena at fixed addresses with planned reuse, stale contents and failures",
        "disk under /simdisk: in-memory files; open, write, close, mmap, rename, unlink interposed, with planned errors",
        "input streams: fopencookie with planned read sizes, stalls and errors",
        "blocking primitives and one-time initialisation: interposed, never block for real"]
RULES = {
    "C01": "seed -> plan: 1-4 bit structures per epoch (contents by 13 generators, sizes around every block limit), 2-4 reader threads, preemption points by step count and at accesses to memory other threads wrote, 1-3 epochs",
    "C02": "seed -> plan: trees / value arrays, 2-4 reader threads with preemptions, failing allocations in individual readers, 1-3 epochs",
    "C03": "seed -> plan: compressed sequences over value generators up to 64 bits, 2-4 reader threads with preemptions, 1-3 epochs",
    "C04": "seed -> plan: several cursors per thread over shared structures, mixed operations, copies, assignments and swaps of cursors, preemptions",
    "C05": "seed -> plan: 2-4 threads each building, freezing, mapping, querying, destroying its own structures; images compared with a build alone in another process life",
    "C06": "seed -> plan: freeze in one process life (short and interrupted writes), map in another (other memory, read-only image between inaccessible pages at planned alignment, or mapped file), concurrent readers, then refreeze / swap / remap / dispose / destroy after unmapping",
    "C07": "seed -> plan: structures, a target (named file, file stream, refusing stream buffer), old file content, open/write/close errors, full disk, death after any byte, short and interrupted writes; then recovery and retry",
    "C08": "seed -> plan: 1-3 threads, each a stream with 1-4 structures and short/interrupted writes; reported sizes against stream growth, mapping, size_of and size tree",
    "C09": "seed -> plan: one content, 2-4 further process lives that make it by other routes, histories, memory contents, origins (mapped, swapped in, after a failed attempt, after a full disk); images compared",
    "C10": "seed -> plan: chain of process lives of different builds (default, no intrinsics, hardware popcount without assertions, release 8f0413d), each maps the last image, reads it concurrently and writes the next, sometimes dying on the way",
    "C11": "seed -> plan: 1-3 threads each reading its own streams through planned short, stalled and failing reads, by repeated getline or by iterating",
    "C12": "seed -> plan: files of generated text, 1-3 threads iterating with copied iterators, file holders ended early or by exceptions, failing allocations, files that cannot be opened or mapped",
    "C13": "seed -> plan: edit histories over three builders per thread with failing allocations, every intermediate state compared with a list of bits",
    "C14": "seed -> plan: builds, assignments, take-overs and enumerations in 1-3 threads with the k-th allocation failing (once or for good) or the input throwing at the j-th element; then retry",
    "C15": "seed -> plan: lives of four objects per thread (build, map, swap, dispose, clear, assign, take over, destroy, freeze, remap) over shared read-only images",
    "C19": "seed -> plan: as C01-C04 over every structure but top-k, with every allocation of the reader threads failing and, in half the runs, 96 KB stacks; readers also map images and query those",
    "C20": "seed -> plan: as C01-C05 (queries, cursors, freezing, mapping, own builds), with one or more threads suspended after a planned number of their own steps until all others have finished",
    "C21": "seed -> plan: as C01-C06 for readers (queries, cursors, mapping, sizing, swapping), one plan in twelve over 150 000 to 3 million elements, in others threads suspended in mid-call; the steps of the calling thread during each call against a bound",
    "C22": "seed -> plan: as C01-C05 (queries, cursors, freezing, mapping, own builds), with the threads interrupted between two steps of a call, once or many times, by handlers that query and drive cursors; builds, freezes and readings whose input iterator, comparator, stream buffer or stream itself queries, builds, freezes, maps or reads",
    "C23": "seed -> plan: 1-4 threads that build, size, freeze, map and destroy structures along random construction routes, after attempts that failed for memory or at an input element, run histories over builders and read lines of files; one plan in ten with up to 3 million elements; preemptions, in a third of the plans one suspended thread; steps, requested and held bytes of each call against a linear bound",
}


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) message=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


class Sim:
    def __init__(self, exe, tmp):
        self.exe, self.tmp = exe, tmp
        self.n = 0

    def plan(self, prop, base, idx):
        return subprocess.run([self.exe, "genidx", prop, str(base), str(idx)], stdout=subprocess.PIPE, text=True, check=True).stdout

    def replay_many(self, plans):
        """outcome of each plan text, in parallel"""
        files = []
        for t in plans:
            self.n += 1
            f = os.path.join(self.tmp, "p%d" % self.n)
            open(f, "w").write(t)
            files.append(f)
        res = [None] * len(files)

        def one(k):
            part = list(range(k, len(files), NCPU))
            if not part:
                return
            try:
                r = subprocess.run([self.exe, "replay"] + [files[i] for i in part], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=400)
                ls = [l for l in r.stdout.splitlines() if l.startswith("{")]
            except subprocess.TimeoutExpired:
                ls = []
            for i, l in zip(part, ls):
                try:
                    res[i] = json.loads(l)
                except ValueError:
                    pass
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            list(ex.map(one, range(NCPU)))
        for f in files:
            os.unlink(f)
        return res


def minimise(sim, text, cls, budget):
    """fewer lines, then smaller numbers, as long as the same class of violation happens"""
    t0 = time.time()
    head, lines = text.splitlines()[0], text.splitlines()[1:]

    def ok(cands):
        rs = sim.replay_many(["\n".join([head] + c) + "\n" for c in cands])
        return [r is not None and r["status"] == 2 and r["cls"] == cls for r in rs]
    chunk = max(1, len(lines) // 2)
    while chunk >= 1 and time.time() - t0 < budget * 0.6:
        i, progress = 0, False
        while i < len(lines) and time.time() - t0 < budget * 0.6:
            spans = [(j, min(len(lines), j + chunk)) for j in range(i, len(lines), chunk)][:NCPU]
            good = ok([lines[:a] + lines[b:] for a, b in spans])
            hit = [s for s, g in zip(spans, good) if g]
            if hit:
                # try all of them together, else the first
                rest = [l for k, l in enumerate(lines) if not any(a <= k < b for a, b in hit)]
                if len(hit) > 1 and ok([rest])[0]:
                    lines = rest
                else:
                    a, b = hit[0]
                    lines = lines[:a] + lines[b:]
                progress = True
            else:
                i = spans[-1][1]
        if chunk == 1 and not progress:
            break
        chunk = chunk // 2 if chunk > 1 else (1 if progress else 0)
    # numbers
    again = True
    while again and time.time() - t0 < budget:
        again = False
        for li in range(len(lines)):
            tok = lines[li].split(" ")
            for ti in range(len(tok) - 1, 0, -1):
                if time.time() - t0 > budget:
                    break
                v = int(tok[ti])
                if v == 0:
                    continue
                c = sorted({0, 1, v // 2, v - 1, v // 10, v - v // 4} - {v})
                c = [x for x in c if x < v]
                cands = []
                for x in c:
                    t2 = tok[:]
                    t2[ti] = str(x)
                    cands.append(lines[:li] + [" ".join(t2)] + lines[li + 1:])
                g = ok(cands)
                for x, cand, gg in zip(c, cands, g):
                    if gg:
                        lines, tok, again = cand, cand[li].split(" "), True
                        break
    return "\n".join([head] + lines) + "\n"


def run_workers(exe, tmp, prop, base, seconds, count, maxfail):
    procs, outs = [], []
    per = (count + NCPU - 1) // NCPU
    for w in range(NCPU):
        h = os.path.join(tmp, "h%d" % w)
        procs.append(subprocess.Popen([exe, "work", prop, str(base), str(w), str(NCPU), str(per), str(seconds), h, str(maxfail)],
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
        outs.append([])
    first = threading.Event()

    def rd(w):
        for l in procs[w].stdout:
            outs[w].append(l)
            if l.startswith("F "):
                first.set()
    ths = [threading.Thread(target=rd, args=(w,), daemon=True) for w in range(NCPU)]
    [t.start() for t in ths]
    end = time.time() + seconds + 260
    grace = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if first.is_set() and grace is None:
            grace = time.time() + 3     # a few more failures to choose from
        if (grace and time.time() > grace) or time.time() > end:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
    [p.wait() for p in procs]
    [t.join(5) for t in ths]
    fails, tots = [], []
    for o in outs:
        for l in o:
            try:
                if l.startswith("F "):
                    fails.append(json.loads(l[2:]))
                elif l.startswith("T "):
                    tots.append(json.loads(l[2:]))
            except ValueError:
                pass
    il, hist, edges = set(), set(), bytearray(1 << 16)
    for w in range(NCPU):
        h = os.path.join(tmp, "h%d" % w)
        if not os.path.exists(h):
            continue
        d = open(h, "rb").read()
        at = 0
        for s in (il, hist):
            n, = struct.unpack_from("<Q", d, at)
            at += 8
            s.update(struct.unpack_from("<%dQ" % n, d, at))
            at += 8 * n
        for i, b in enumerate(d[at:at + (1 << 16)]):
            if b:
                edges[i] = 1
    return fails, tots, il, hist, sum(edges)


def determinism(exe, prop, base, n):
    """the same seeds, all in one worker and spread over three: every execution has the same hash"""
    def go(start, step, cnt):
        r = subprocess.run([exe, "work", prop, str(base), str(start), str(step), str(cnt), "60", "/dev/null", "1000000", "all"],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        d = {}
        for l in r.stdout.splitlines():
            if l.startswith("R "):
                o = json.loads(l[2:])
                d[o["index"]] = (o["hash"], o["il"], o["status"], o["cls"])
        return d
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        a = ex.submit(go, 0, 1, n)
        bs = [ex.submit(go, k, 3, (n - k + 2) // 3) for k in range(3)]
        a = a.result()
        b = {}
        for x in bs:
            b.update(x.result())
    common = [i for i in a if i in b]
    bad = [i for i in common if a[i] != b[i]]
    return len(common), bad


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="succinct-sim-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        try:
            exe = B.build(os.path.join(tmp, "b"))
        except B.BuildError as e:
            print("BUILD FAILED\n%s" % e)
            return 2
        sim = Sim(exe, tmp)
        if sys.argv[1] == "--replay":
            text = open(sys.argv[2]).read()
            r = [sim.replay_many([text])[0] for _ in range(2)]
            print(json.dumps(r[0], indent=1))
            print("identical on a second replay:", r[0] == r[1])
            return 1 if r[0] and r[0]["status"] == 2 else 0
        if sys.argv[1] == "--selftest":
            rc = 0
            for p in sorted(RULES):
                n, bad = determinism(exe, p, 7, int(sys.argv[2]) if len(sys.argv) > 2 else 60)
                print("%s: %d executions repeated, %d differ %s" % (p, n, len(bad), bad[:5]))
                rc |= bool(bad)
            return rc
        return check(sim, exe, tmp, sys.argv[1], t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(sim, exe, tmp, prop, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs, cnt = BUDGET[tier]
    secs = float(os.environ.get("SIM_SECONDS", secs))
    tb = time.time() - t0
    ndet, baddet = determinism(exe, prop, seed, 12 if tier == "quick" else 200)
    ts = time.time()
    fails, tots, il, hist, edges = run_workers(exe, tmp, prop, seed, secs, cnt, 3)
    wall = time.time() - ts
    kn = known(prop)
    viol, harness = [], []
    seen_known = set()
    for f in fails:
        if f["status"] == 2:
            k = [x for x in kn if x[0] == f["cls"] and x[1].search(f["msg"])]
            if k:
                seen_known.add(k[0][2])
            else:
                viol.append(f)
        else:
            harness.append(f)
    for c, rx, text in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    rc, replay = 0, None
    tried = 0
    byclass = {}
    for f in sorted(viol, key=lambda f: f["index"]):
        byclass.setdefault(f["cls"], []).append(f)
    order = [f for k in range(3) for c in byclass for f in byclass[c][k:k + 1]]
    for f in order[:9]:
        tried += 1
        text = sim.plan(prop, seed, f["index"])
        rs = sim.replay_many([text, text])
        if not all(r and r["status"] == 2 and r["cls"] == f["cls"] for r in rs):
            print("not reproduced: index %d class %s, replays %s" % (f["index"], f["cls"], [r and r["cls"] for r in rs]))
            continue
        small = minimise(sim, text, f["cls"], 45 if tier == "quick" else 120)
        rs = sim.replay_many([small, small])
        if not all(r and r["status"] == 2 and r["cls"] == f["cls"] for r in rs) or rs[0]["hash"] != rs[1]["hash"]:
            small = text
            rs = sim.replay_many([small, small])
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, "%s-%d-%d.plan" % (prop, seed, f["index"]))
        r = rs[0] or f
        with open(replay, "w") as o:
            o.write("# property %s, base seed %d, run %d, seed of the run %s\n# class %s\n# %s\n# at: %s\n# execution hash %s (two replays agree: %s)\n# replay: python3 /verif/check.py --replay %s\n"
                    % (prop, seed, f["index"], f["seed"], r["cls"], r["msg"], r["where"], r["hash"], bool(rs[1]) and rs[0]["hash"] == rs[1]["hash"], replay))
            o.write(small)
        print("%s: %s" % (r["cls"], r["msg"]))
        print("at: %s; run %d of base seed %d; plan minimised from %d to %d lines" % (r["where"], f["index"], seed, text.count("\n"), small.count("\n")))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        rc = 1
        break
    if rc == 0 and viol:
        print("failures that do not reproduce: %d tried" % tried)
        rc = 2
    if rc == 0 and harness:
        print("harness errors: %s" % [(h["index"], h["cls"], h["msg"]) for h in harness[:3]])
        rc = 2
    tot = {}
    runs_with = {}
    for t in tots:
        for k, v in t["counters"].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in t["runs_with"].items():
            runs_with[k] = runs_with.get(k, 0) + v
    runs = sum(t["runs"] for t in tots)
    if rc == 0 and runs == 0:
        print("no run finished")
        rc = 2
    samples = []
    for i in (0, 1, 2):
        text = sim.plan(prop, seed, i)
        r = sim.replay_many([text])[0]
        ls = text.splitlines()
        samples.append({"run": i, "plan_lines": len(ls), "plan": ls[:14] + (["..."] if len(ls) > 14 else []), "outcome": r and {"status": r["status"], "hash": r["hash"]}})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": TECH, "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(hist),
            "rule": RULES[prop] + ". One run = one plan = one simulated execution from a seed. Non-trivial: at least one answer was compared with the reference model and at least one context switch, process restart or injected fault happened. Distinct: by the hash of the whole event history (switches, faults, operations, answers).",
            "samples": samples,
            "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0, "seeds_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "simulation_seconds": round(wall, 2), "build_seconds": round(tb, 2), "workers": NCPU,
            "simulated_time": {"scheduler_steps": tot.get("steps", 0), "note": "the library has no clock or timer; simulated time is counted in instrumented steps"},
            "context_switches": tot.get("switches", 0), "distinct_interleavings": len(il),
            "interleaving_measure": "hash of the sequence of (from thread, to thread, code edge at the switch) of a run",
            "code_edges_reached": edges,
            "process_lives": tot.get("lives", 0) + runs, "library_calls": tot.get("lib_calls", 0), "answers_compared": tot.get("compared", 0),
            "faults_injected": {k[2:]: v for k, v in tot.items() if k.startswith("f_")},
            "runs_with_fault": {k[2:]: v for k, v in runs_with.items() if k.startswith("f_")},
            "situations_reached": {k[2:]: v for k, v in tot.items() if k.startswith("p_")},
            "determinism": {"executions_repeated": ndet, "differing": len(baddet)},
            "real": REAL, "stub": STUB,
        },
        "assumptions": ["sequentially consistent memory between preemption points; reordering by hardware is not simulated",
                        "code inside precompiled libraries (libstdc++, boost) is not preempted in mid-function",
                        "seeded search: what was not reached is not decided"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    if baddet:
        print("note: %d of %d repeated executions differed: %s" % (len(baddet), ndet, baddet[:5]))
    if rc == 0:
        print("%s: held on %d runs (%d distinct non-trivial histories, %d interleavings, %d answers compared) in %.0f s" % (prop, runs, len(hist), len(il), tot.get("compared", 0), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
