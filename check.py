#!/usr/bin/env python3
"""Build and run one check: check.py ID [quick|thorough|replay FILE] [engine options]"""
import hashlib, os, subprocess, sys, time, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")

QP_REPS = ["qprep_dense", "qprep_sparse", "qprep_s22", "qprep_s32", "qprep_s24", "qprep_s11", "qprep_sd3", "qprep_s3d", "qpreps"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
BASE = ["g++", "-std=c++20", "-O1", "-g1", "-Wno-deprecated-enum-enum-conversion",
        "-I" + H, "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]

IPOPT = ["-isystem", "/usr/include/coin"]

CHECKS = {
    **{q: dict(srcs=[q] + QP_REPS) for q in ["Q01", "Q02", "Q03", "Q04", "Q05", "Q06", "Q07", "Q08"]},
    **{c: dict(srcs=[c]) for c in ["S01", "S02", "S03", "T01", "O01", "C01", "M01", "M03"]},
    **{c: dict(srcs=[c], flags=IPOPT, libs=["-lipopt"]) for c in ["N01"]},
    "E01": dict(srcs=["E01", "E01b", "E01c", "E01d", "E01e", "E01f"]),
    "M02": dict(srcs=["M02", "M02b", "M02c"]),
    "L01": dict(srcs=["L01", "L01b", "L01c", "L01d"]),
    "L02": dict(srcs=["L02", "L02b", "L02c", "L02d"]),
    "R01": dict(srcs=["R01", "R01b", "R01c", "R01d"]),
    "L03": dict(srcs=["L03", "L03b", "L03c", "L03d"]),
    "L04": dict(srcs=["L04", "L04b"]),
    "A01": dict(srcs=["A01", "A01b", "A01c"]),
    "N02": dict(srcs=["N02"], flags=IPOPT, libs=["-lipopt"], san=False),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_obj(src, flags):
    """Compile one translation unit, cached by its preprocessed text."""
    path = os.path.join(H, src + ".cpp")
    cmd = BASE + flags
    pre = sh(cmd + ["-E", "-P", path])
    if pre.returncode:
        return None, pre.stderr
    key = hashlib.sha256((" ".join(cmd) + "\0" + pre.stdout).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", src + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(cmd + ["-c", path, "-o", tmp])
        if r.returncode:
            return None, r.stderr
        os.replace(tmp, obj)
    return obj, ""


def units(cid):
    """Translation units of a check with their flags, the engine first."""
    c = CHECKS[cid]
    san = SAN if c.get("san", True) else []
    return [("engine", san if san else c.get("flags", []))] + [(src, san + c.get("flags", [])) for src in c["srcs"]]


def build(cid, verbose=True):
    c = CHECKS[cid]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    flags = (SAN if c.get("san", True) else []) + c.get("flags", [])
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda u: build_obj(*u), units(cid)))
    for s, (o, err) in zip(["engine"] + c["srcs"], res):
        if o is None:
            lines = [l[:400] for l in err.splitlines() if "error" in l]
            print("compilation of %s against %s failed:\n%s" % (s, REPO, "\n".join(lines[:12])))
            return None
    objs = [o for o, _ in res]
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", cid + "-" + key)
    if not os.path.exists(exe):
        r = sh(["g++"] + flags + objs + ["-o", exe + ".tmp"] + c.get("libs", []))
        if r.returncode:
            print("linking failed:\n" + r.stderr[:6000])
            return None
        os.replace(exe + ".tmp", exe)
    if verbose:
        print("built %s in %.1f s" % (cid, time.time() - t0), flush=True)
    return exe


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    cid = sys.argv[1]
    if cid == "setup":
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        jobs = {}
        for c in CHECKS:
            for src, flags in units(c):
                jobs[(src, " ".join(flags))] = (src, flags)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: build_obj(*j), jobs.values()))
        for c in CHECKS:  # a harness that does not build is reported by its own check
            build(c)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    exe = build(cid)
    if exe is None:
        return 2
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "max_malloc_fill_size=65536:malloc_fill_byte=190"  # deterministic uninitialized memory
    env["MALLOC_PERTURB_"] = "85"
    env.pop("UBSAN_OPTIONS", None)
    env["OPENBLAS_NUM_THREADS"] = env["OMP_NUM_THREADS"] = "1"
    if tier == "replay":
        return subprocess.run([exe, "replay", sys.argv[3]], env=env).returncode
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    cmd = [exe, "run", "--seed", seed, "--tier", tier, "--replays", os.path.join(VERIF, "replays"),
           "--evidence", os.path.join(VERIF, "evidence", cid + ".json"),
           "--known", os.path.join(VERIF, "known_findings.txt")] + sys.argv[3:]
    sys.stdout.flush()
    r = subprocess.run(cmd, env=env).returncode
    return r if r in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
