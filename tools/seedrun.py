#!/usr/bin/env python3
"""Development tool: applies each planted bug to a clone of /repo, runs the check of its property and undoes it again.
usage: seedrun.py [id ...] [--tier quick|thorough] [--all-checks]"""
import json, os, shutil, subprocess, sys, time
args = sys.argv[1:]
tier = "quick"
if "--tier" in args:
    i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
S = "/verif/seeded"
C = "/tmp/seedrun_%d" % os.getpid()
subprocess.check_call(["git", "clone", "-q", "/repo", C])
shutil.copy("/repo/include/frnetlib/version.h", C + "/include/frnetlib/version.h")
caught = missed = 0
for sid in sorted(os.listdir(S)):
    if args and sid not in args: continue
    prop = json.load(open(f"{S}/{sid}/meta.json"))["property"]
    r = subprocess.run(["git", "-C", C, "apply", f"{S}/{sid}/patch.diff"], stderr=subprocess.PIPE, text=True)
    if r.returncode:
        print(f"{sid:32} DOES NOT APPLY {r.stderr.strip()[:200]}", flush=True); missed += 1; continue
    try:
        t = time.time()
        r = subprocess.run(["python3", "/verif/bin/check.py", prop, tier], env=dict(os.environ, VERIF_REPO=C), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(["git", "-C", C, "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    ok = r.returncode == 1 and v
    caught += bool(ok); missed += not ok
    R = "/verif/tools/seed_results.json"
    res = json.load(open(R)) if os.path.exists(R) else {}
    res[sid] = f"{prop}, {int(time.time() - t) or 1} s" if ok else "missed"
    json.dump(res, open(R, "w"), indent=1, sort_keys=True)
    print(f"{sid:32} {'caught' if ok else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s {v[0][:150] if v else r.stdout.strip()[-200:]}", flush=True)
print(f"caught {caught}, missed {missed}")
shutil.rmtree(C)
