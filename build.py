#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (and the vendored release) into a directory."""
import os, shutil, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SUCCINCT_REPO", "/repo")
REF = os.path.join(VERIF, "vendor", "succinct-8f0413d")

COMMON = ["-std=gnu++17", "-g0", "-w", "-fno-omit-frame-pointer", "-I" + os.path.join(VERIF, "sim")]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
# name: (compiler, flags, intrinsics, popcnt, sources)
CONFIGS = {
    "main":   ("clang++", ["-O1", "-fno-optimize-sibling-calls"] + COV, 1, 0, REPO),
    "nointr": ("clang++", ["-O2", "-fno-optimize-sibling-calls"] + COV, 0, 0, REPO),
    "popcnt": ("g++", ["-O2", "-DNDEBUG", "-msse4.2", "-mpopcnt"], 1, 1, REPO),
    "ref":    ("g++", ["-O2"], 1, 0, REF),
}
HARNESS = ["core", "model", "scen_common", "scen_readers", "scen_images", "scen_util", "scen_huge", "scen_nest", "scen_work", "main"]

BULK = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "strlen"]


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def build(out):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jobs = []
    for name, (cxx, flags, intr, pop, src) in CONFIGS.items():
        d = os.path.join(out, name, "succinct")
        os.makedirs(d)
        for f in glob.glob(os.path.join(src, "*.hpp")) + [os.path.join(src, x) for x in ("rs_bit_vector.cpp", "bp_vector.cpp")]:
            b = os.path.basename(f)
            if b == "succinct_config.hpp" or b.startswith("test_"):
                continue
            shutil.copy(f, os.path.join(d, b))
        # other library sources a change may have added
        for f in glob.glob(os.path.join(src, "*.cpp")):
            b = os.path.basename(f)
            if not b.startswith("test_") and not os.path.exists(os.path.join(d, b)):
                shutil.copy(f, os.path.join(d, b))
        extra = sorted(b for b in os.listdir(d) if b.endswith(".cpp") and b not in ("rs_bit_vector.cpp", "bp_vector.cpp"))
        with open(os.path.join(d, "sim_extra_sources.inc"), "w") as f:
            f.write("".join('#include "%s"\n' % b for b in extra))
        with open(os.path.join(d, "succinct_config.hpp"), "w") as f:
            f.write("#pragma once\n#define SUCCINCT_USE_LIBCXX 0\n#define SUCCINCT_USE_INTRINSICS %d\n#define SUCCINCT_USE_POPCNT %d\n" % (intr, pop))
        jobs.append([cxx] + COMMON + flags + ["-I" + d, "-I" + os.path.dirname(d), "-Dsuccinct=succinct_" + name, "-DSIM_CFG=" + name,
                     "-c", os.path.join(VERIF, "sim", "subjects_impl.cpp"), "-o", os.path.join(out, name + ".o")])
    for h in HARNESS:
        jobs.append(["g++"] + COMMON + ["-O1", "-c", os.path.join(VERIF, "sim", h + ".cpp"), "-o", os.path.join(out, "h_" + h + ".o")])
    with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 8)) as ex:
        for f in [ex.submit(run, j) for j in jobs]:
            f.result()
    # what the instrumented code copies, fills and compares in one call counts as accesses and as work
    for name in ("main", "nointr"):
        run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (f, f) for f in BULK] + [os.path.join(out, name + ".o")])
    # the instrumented objects first: shared inline code is then the instrumented copy
    objs = [os.path.join(out, n + ".o") for n in ("main", "nointr", "popcnt", "ref")] + [os.path.join(out, "h_" + h + ".o") for h in HARNESS]
    exe = os.path.join(out, "sim")
    run(["g++", "-no-pie", "-o", exe] + objs + ["-lboost_iostreams", "-ldl", "-lpthread"])
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1]))
