#!/usr/bin/env python3
"""Run one property's check: build the simulator from /repo's working tree, search, report.

usage: check.py PROP [--tier quick|thorough] [--seed N] [--keep-going] [--time S] [--seeds N]
"""
import argparse, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--time", type=float)
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = PROPS[a.prop]
    b = subprocess.run([sys.executable, os.path.join(HERE, "sim", "build.py")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        sys.stdout.write(b.stdout[-4000:])
        print("%s: the simulator could not be built" % a.prop)
        return 3
    out = os.environ.get("NM_BUILD", os.path.join(HERE, "build"))
    sim, lib = os.path.join(out, "nmsim"), os.path.join(out, "libnm.so")
    rep, ev = os.path.join(HERE, "replays"), os.path.join(HERE, "evidence")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(ev, exist_ok=True)
    known = os.path.join(HERE, "known_findings.txt")
    # recorded findings: replay each
    for l in open(known):
        if not l.startswith("finding: "):
            continue
        f = dict(x.split("=", 1) for x in re.findall(r"(?:property|id|tag|match|replay)=\S+", l))
        if f["property"] != a.prop:
            continue
        what = l[l.index("what=") + 5:].strip()
        r = subprocess.run([sim, "replay", "--quiet", "--lib=" + lib, os.path.join(HERE, f["replay"])], stdout=subprocess.PIPE, text=True)
        if r.returncode == 1 and ("\n" + f["tag"] + ": ") in "\n" + r.stdout:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
        else:
            print("note: recorded finding %s no longer occurs" % f["id"])
    q = cfg["quick"] if tier == "quick" else cfg["thorough"]
    cmd = [sim, "explore", "--lib=" + lib, "--prop=" + a.prop, "--seed=" + str(a.seed), "--seeds=%d" % (a.seeds or q[0]), "--time=%d" % (a.time or q[1]),
           "--replays=" + rep, "--evidence=" + os.path.join(ev, a.prop + ".json"), "--tier=" + tier, "--known=" + known,
           "--rule=" + cfg["rule"], "--level=exploration", "--jobs=%d" % (os.cpu_count() or 4)]
    if a.keep_going: cmd.append("--keep-going")
    if a.stats: cmd.append("--stats")
    sys.stdout.flush()
    return subprocess.run(cmd).returncode

sys.exit(main())
