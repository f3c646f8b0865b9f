#!/usr/bin/env python3
"""mutate.py OUT N SEED [JOBS]: sensitivity of the checks to small random changes of the library.
Makes random one-token changes of the library in scratch copies, drops those the project's tests notice,
and runs every scenario for a few seconds on the others. What survives is listed for a human to look at
(equivalent changes and gaps look alike to this tool). Not a check; nothing in MANIFEST.json uses it."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import build as B

OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
JOBS = int(sys.argv[4]) if len(sys.argv) > 4 else 3
SECS = float(os.environ.get("MUT_SECONDS", "5"))
ONLY = os.environ.get("MUT_FILES")
STATIC = os.environ.get("MUT_MODE") == "static"      # instead: make one local variable static, set anew in each call, so that only concurrency or re-entry shows it
CACHE = "/tmp/mut/cache"
PROPS = ["C%02d" % i for i in range(1, 16)] + ["C19", "C20", "C21", "C22", "C23"]
FIRST = {"bp_vector": ["C02"], "cartesian": ["C02"], "topk": ["C02", "C04"], "rs_bit": ["C01"], "bit_vector": ["C13", "C01", "C04"], "darray": ["C01", "C03"],
         "elias": ["C03", "C04"], "gamma": ["C03", "C04"], "nibble": ["C03"], "mapper": ["C06", "C07", "C08", "C15"], "mappable": ["C15", "C14", "C06"], "util": ["C11", "C12"], "forward": ["C04"], "broadword": ["C01", "C02"]}
FILES = ["bit_vector.hpp", "bp_vector.cpp", "bp_vector.hpp", "broadword.hpp", "cartesian_tree.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_compressed_list.hpp",
         "elias_fano_list.hpp", "forward_enumerator.hpp", "gamma_bit_vector.hpp", "gamma_vector.hpp", "mappable_vector.hpp", "mapper.hpp", "nibble_vector.hpp", "rs_bit_vector.cpp",
         "rs_bit_vector.hpp", "topk_vector.hpp", "util.hpp"]
OPS = [(r"(?<![<\-])<(?![<=])(?= )", ["<="]), (r"<=", ["<"]), (r"(?<![>\-])>(?![>=])(?= )", [">="]), (r"(?<![>])>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\|\|", ["&&"]), (r"&&", ["||"]), (r"(?<![=!\w])!(?=[\w(])", [""]),
       (r" << ", [" >> "]), (r" >> ", [" << "]), (r" \| ", [" & "]), (r" & ", [" | "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\+\+", ["--"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*", ["+"]), (r" / ", [" * "]), (r" % ", [" / "]),
       (r"\buint64_t (?=\w)", ["uint32_t "]), (r"\bsize_t (?=\w)", ["uint32_t ", "uint16_t "]), (r"\bint64_t\b", ["int32_t"]), (r"\buint16_t\b", ["uint8_t"])]


def sites():
    out = []
    for f in FILES:
        if ONLY and not re.search(ONLY, f):
            continue
        src = open(os.path.join(B.REPO, f)).read().split("\n")
        for i, l in enumerate(src):
            c = l.split("//")[0]
            s = c.strip()
            if STATIC:
                m = re.match(r"^(\s+)((?:const )?(?:uint64_t|uint8_t|uint32_t|size_t|unsigned long|bool|excess_t|bp_vector::excess_t|int|T|const char\*|bp_vector::block_min_excess_t|value_type)) (\w+) = ([^;]+);\s*$", c)
                if m and "static" not in c:
                    out.append((f, i, "%sstatic %s %s; %s = %s;" % (m.group(1), m.group(2).replace("const ", "", 1) if not m.group(2).endswith("*") else m.group(2), m.group(3), m.group(3), m.group(4))))
                m = re.match(r"^(\s+)for \((uint64_t|size_t|int) (\w+) = ([^;]+);(.*)$", c)
                if m:
                    out.append((f, i, "%sstatic %s %s; for (%s = %s;%s" % (m.group(1), m.group(2), m.group(3), m.group(3), m.group(4), m.group(5))))
                m = re.match(r"^(\s+)(std::vector<[^;=(]*>|bit_vector_builder|entry_vector_type|std::string) (\w+);\s*$", c)
                if m and i > 0 and "m_" not in m.group(3):
                    out.append((f, i, "%sstatic %s %s; { %s fresh_%s; %s.swap(fresh_%s); }" % (m.group(1), m.group(2), m.group(3), m.group(2), m.group(3), m.group(3), m.group(3))))
                continue
            if not s or s.startswith(("#", "*", "/*", "assert", "template", "typedef", "friend")):
                continue
            for rx, reps in OPS:
                for m in re.finditer(rx, c):
                    for r in reps:
                        out.append((f, i, c[:m.start()] + r + c[m.end():]))
            for m in re.finditer(r"(?<![\w.])(\d+)(?=[^\w.]|[UL])", c):
                v = int(m.group(1))
                for r in ([v + 1] + ([v - 1] if v > 0 else []) + ([v * 2] if v > 4 else [])):
                    out.append((f, i, c[:m.start()] + str(r) + c[m.end():]))
            if s.endswith(";") and not re.match(r"(return|break|continue|using|throw|const|static|inline|[\w:<>]+ [\w, ]+;|[\w:<>]+(<.*>)? +\w+( =|\(|;))", s) and s != "};":
                out.append((f, i, c[:len(c) - len(c.lstrip())] + ";"))
            if s.endswith("{") and s.startswith("if "):
                out.append((f, i, re.sub(r"if \(", "if (false && ", c, count=1)))
                out.append((f, i, re.sub(r"if \(", "if (true || ", c, count=1)))
    return out


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests_pass(d):
    bd = os.path.join(d, "tb")
    os.makedirs(bd)
    def comp(f):
        o = os.path.join(bd, os.path.basename(f) + ".o")
        return sh(["g++", "-O1", "-w", "-include", "/tmp/mut/pch.hpp", "-I" + d, "-c", f, "-o", o]).returncode
    srcs = glob.glob(d + "/test_*.cpp") + [d + "/rs_bit_vector.cpp", d + "/bp_vector.cpp"]
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        if any(ex.map(comp, srcs)):
            return None
    lib = [bd + "/rs_bit_vector.cpp.o", bd + "/bp_vector.cpp.o"]
    def one(t):
        b = os.path.basename(t)
        if sh(["g++", bd + "/" + b + ".o"] + lib + ["-lboost_unit_test_framework", "-lboost_iostreams", "-lboost_system", "-lboost_filesystem", "-o", bd + "/" + b + ".x"]).returncode:
            return None
        run = os.path.join(bd, b + ".run")
        os.makedirs(run)
        try:
            return sh([bd + "/" + b + ".x"], cwd=run, timeout=60, env=dict(os.environ, MALLOC_PERTURB_="255")).returncode == 0
        except subprocess.TimeoutExpired:
            return False
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        rs = list(ex.map(one, glob.glob(d + "/test_*.cpp")))
    return None if None in rs else all(rs)


def build_sim(src, out):
    jobs = []
    for name, (cxx, flags, intr, pop, s) in B.CONFIGS.items():
        if name == "ref":
            continue
        d = os.path.join(out, name, "succinct")
        os.makedirs(d)
        for f in glob.glob(src + "/*.hpp") + [src + "/rs_bit_vector.cpp", src + "/bp_vector.cpp"]:
            if not os.path.basename(f).startswith(("test_", "succinct_config")):
                shutil.copy(f, d)
        open(d + "/sim_extra_sources.inc", "w").close()
        with open(d + "/succinct_config.hpp", "w") as f:
            f.write("#pragma once\n#define SUCCINCT_USE_LIBCXX 0\n#define SUCCINCT_USE_INTRINSICS %d\n#define SUCCINCT_USE_POPCNT %d\n" % (intr, pop))
        jobs.append([cxx] + B.COMMON + flags + ["-I" + d, "-I" + os.path.dirname(d), "-Dsuccinct=succinct_" + name, "-DSIM_CFG=" + name, "-c", VERIF + "/sim/subjects_impl.cpp", "-o", out + "/" + name + ".o"])
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                return None
    exe = out + "/sim"
    objs = [out + "/%s.o" % n for n in ("main", "nointr", "popcnt")] + [CACHE + "/ref.o"] + [CACHE + "/h_%s.o" % h for h in B.HARNESS]
    return exe if sh(["g++", "-no-pie", "-o", exe] + objs + ["-lboost_iostreams", "-ldl", "-lpthread"]).returncode == 0 else None


def sim_kill(exe, tmp, f):
    order = next((v for k, v in FIRST.items() if f.startswith(k)), [])
    order = order + [p for p in PROPS if p not in order]
    killers = []
    for p in order:
        ps = [subprocess.Popen([exe, "work", p, "1", str(w), "8", "1000000", str(SECS), tmp + "/h%d" % w, "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for w in range(8)]
        hit = None
        outs = [None] * 8
        def rd(k):
            outs[k] = ps[k].stdout.read()
        ts = [threading.Thread(target=rd, args=(k,)) for k in range(8)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for o in outs:
            m = re.search(r'^F (.*)$', o or "", re.M)
            if m:
                j = json.loads(m.group(1))
                if hit is None or j["index"] < hit["index"]:
                    hit = j
        [q.wait() for q in ps]
        if hit:
            return p, hit["index"], hit["cls"], hit["msg"][:120]
    return None


def one(site):
    f, i, new = site
    d = tempfile.mkdtemp(prefix="m", dir="/tmp/mut")
    try:
        for x in glob.glob(B.REPO + "/*.hpp") + glob.glob(B.REPO + "/*.cpp"):
            shutil.copy(x, d)
        ls = open(d + "/" + f).read().split("\n")
        old = ls[i]
        ls[i] = new
        open(d + "/" + f, "w").write("\n".join(ls))
        os.symlink(d, d + "/succinct")
        t = True if STATIC else tests_pass(d)
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        if not t:
            rec["result"] = "no-build" if t is None else "tests"
            return rec
        os.makedirs(d + "/s")
        exe = build_sim(d, d + "/s")
        if not exe:
            rec["result"] = "no-sim-build"
            return rec
        k = sim_kill(exe, d, f)
        rec["result"] = "killed" if k else "SURVIVED"
        if k:
            rec["by"] = k
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    os.makedirs("/tmp/mut", exist_ok=True)
    open("/tmp/mut/pch.hpp", "w").close()
    shutil.rmtree(CACHE, ignore_errors=True)
    B.build(CACHE)
    al = sites()
    random.Random(SEED).shuffle(al)
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    al = [s for s in al if (s[0], s[1] + 1, s[2].strip()) not in done][:N]
    print(len(al), "sites")
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        for fu in cf.as_completed([ex.submit(one, s) for s in al]):
            try:
                r = fu.result()
            except Exception as e:
                r = {"file": "?", "line": 0, "old": "", "new": "", "result": "error " + repr(e)}
            with lock:
                open(OUT, "a").write(json.dumps(r) + "\n")


main()
