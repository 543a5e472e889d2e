#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]  --  builds the harness of the property from /repo's working tree, and runs it.

run_check.py --replay FILE [--verbose]      --  builds the harness the replay file is for, and replays it.

Exit code: 0 if the property held on everything explored, 1 with a `VIOLATION property=<id> replay=<path>` line if it did
not, 2 if the check itself could not do its job.
"""
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, QUICK_SECONDS, THOROUGH_SECONDS  # noqa: E402

REPO = "/repo"
COMMON = ["-std=c++17", "-g1", "-w", "-pthread"]


def build(check):
    out = os.path.join(VERIF, "build", check["harness"])
    os.makedirs(out, exist_ok=True)
    cxx = ["clang++"]
    if os.environ.get("VERIF_CCACHE"):
        cxx = ["ccache", "clang++"]
    jobs = [
        ("sim", COMMON + ["-O2", "-fno-threadsafe-statics", "-c", VERIF + "/sim/sim.cc"]),
        ("driver", COMMON + ["-O1", "-c", VERIF + "/sim/driver.cc"]),
        # `-fsanitize=thread` is only for its instrumentation of memory accesses; its runtime is not linked in.
        ("harness", COMMON + [check.get("opt", "-O1"), "-fsanitize=thread", "-I" + REPO, "-c", VERIF + "/harness/" + check["harness"] + ".cc"]),
    ]
    procs = []
    for name, args in jobs:
        obj = os.path.join(out, name + ".o")
        if os.path.exists(obj):
            os.unlink(obj)
        procs.append((name, subprocess.Popen(cxx + args + ["-o", obj])))
    ok = True
    for name, p in procs:
        if p.wait() != 0:
            print("can not compile: %s" % name, file=sys.stderr)
            ok = False
    if not ok:
        return None
    exe = os.path.join(out, "run")
    objs = [os.path.join(out, n + ".o") for n in ("harness", "sim", "driver")]
    if subprocess.call(["clang++", "-no-pie", "-rdynamic"] + objs + ["-o", exe, "-ldl", "-lpthread"]) != 0:
        print("can not link", file=sys.stderr)
        return None
    return exe


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        prop = [l.split()[1] for l in open(path) if l.startswith("property ")][0]
        exe = build(CHECKS[prop])
        if not exe:
            return 2
        return subprocess.call([exe, "--replay", path] + sys.argv[3:])
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    check = CHECKS[prop]
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    t0 = time.time()
    exe = build(check)
    if not exe:
        return 2
    seconds = check.get("seconds", QUICK_SECONDS) if tier == "quick" else THOROUGH_SECONDS
    seconds = float(os.environ.get("VERIF_SECONDS", seconds))
    cmd = [exe, "--property", prop, "--tier", tier, "--time", str(seconds), "--seed", os.environ.get("VERIF_SEED", "1"),
           "--evidence", evidence, "--known", os.path.join(VERIF, "KNOWN_FINDINGS.txt"), "--level", check["level"],
           "--real", check["real"], "--compile-s", "%.1f" % (time.time() - t0),
           "--replay-dir", os.path.join(VERIF, "replays")]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    sys.stdout.flush()
    rc = subprocess.call(cmd)
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
