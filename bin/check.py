#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE] : build from /repo's tree, explore, report."""
import argparse, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF
from checks import CHECKS

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--bound")
    ap.add_argument("--time")
    a = ap.parse_args()
    parts = CHECKS[a.property]
    if isinstance(parts, dict):
        parts = [parts]
    out = os.path.join(VERIF, "out")
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(out, exist_ok=True)
    os.makedirs(ev, exist_ok=True)
    final = os.path.join(ev, a.property + ".json")
    if not (a.replay or a.list or a.build) and os.path.exists(final):
        os.unlink(final)
    t0 = time.time()
    rc = 0
    evs = []
    for i, p in enumerate(parts):
        p = dict(p)
        part = p.pop("part", "")
        if a.replay and part and ("part: " + part) not in open(a.replay).read():
            pass
        args = p.pop("args", [])
        try:
            exe = vbuild.build(a.property + part, **p)
        except vbuild.Failed as e:
            print("build failed:\n" + str(e), file=sys.stderr)
            return 2
        if a.build:
            continue
        e = os.path.join(out, "%s%s.%d.evidence.json" % (a.property, part, os.getpid()))
        limit = a.time or ("560" if a.tier == "quick" else "3000")
        cmd = [exe, "--property", a.property, "--tier", a.tier, "--out", out, "--evidence", e,
               "--known", os.path.join(VERIF, "known-findings.txt"), "--time", str(limit)] + args
        if a.replay:
            cmd += ["--replay", a.replay]
        if a.only:
            cmd += ["--only", a.only]
        if a.list:
            cmd += ["--list"]
        if a.bound:
            cmd += ["--bound", a.bound]
        r = subprocess.run(cmd)
        if a.replay:
            if r.returncode == 3 and i + 1 < len(parts):
                continue            # the scenario belongs to another part
            return r.returncode
        if a.only and r.returncode == 3:
            continue
        if os.path.exists(e):
            evs.append((part, json.load(open(e))))
            os.unlink(e)
        if r.returncode:
            rc = r.returncode if r.returncode in (1,) else 2
            break
    if not rc and a.property in BOUND and not (a.replay or a.only or a.list or a.build):
        e = binding(a, out)
        if e is None and a.tier == "thorough":
            rc = 2
        elif e:
            evs.append(("kernel-model-vs-linux", e))
    if evs and not a.only:
        json.dump(merge(a.property, evs, time.time() - t0), open(final, "w"), indent=1)
    vbuild.prune()
    return rc

# The checks that also compare the simulated kernel with the real one, call sequence by call sequence.
BOUND = ("C01", "C02", "C17", "C18", "C19")

def binding(a, out):
    """Binds lib/simk.cpp to this machine's kernel. A difference is a defect of the model: never a violation."""
    try:
        exe = vbuild.build("KERNEL", **CHECKS["KERNEL"])
    except Exception as x:
        print("MODEL-MISMATCH: the comparison of the kernels can't be built: %s" % x, file=sys.stderr)
        return None
    e = os.path.join(out, "kernel.%d.evidence.json" % os.getpid())
    r = subprocess.run([exe, "--property", "KERNEL", "--tier", a.tier, "--out", out, "--evidence", e, "--known", os.devnull, "--time", "240"],
                       capture_output=True, text=True)
    print("\n".join(l for l in r.stdout.splitlines() if l.startswith("KERNEL")))
    ev = json.load(open(e)) if os.path.exists(e) else None
    if os.path.exists(e):
        os.unlink(e)
    if r.returncode:
        print("MODEL-MISMATCH: the simulated kernel differs from this machine's:\n" + (r.stdout + r.stderr).replace("VIOLATION", "difference"), file=sys.stderr)
        return None
    return ev

def merge(prop, evs, wall):
    if len(evs) == 1:
        r = evs[0][1]
        r["wall_s"] = round(wall, 3)
        return r
    r = evs[0][1]
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True, "parts": {}}
    for part, e in evs:
        c = e["coverage"]
        for k in ("states", "transitions", "traces_validated_against_impl") if part != "kernel-model-vs-linux" else ():
            cov[k] += c[k]
        cov["samples"] += c["samples"][:3]
        cov["exhaustive"] = cov["exhaustive"] and c["exhaustive"]
        cov["parts"][part or "main"] = {k: v for k, v in c.items() if k != "samples"}
    r["coverage"] = cov
    r["wall_s"] = round(wall, 3)
    r["violations"] = sum(e.get("violations", 0) for _, e in evs)
    return r

sys.exit(main())
