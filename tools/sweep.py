#!/usr/bin/env python3
"""sweep.py [ID...]: applies each planted bug of /verif/seeded to /repo, runs the check of its property
(and further checks named with -c P01,P02) and records which report it in tools/caught.json."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
extra = []
if args[:1] == ["-c"]:
    extra = args[1].split(","); args = args[2:]
out = ROOT + "/tools/caught.json"
caught = json.load(open(out)) if os.path.exists(out) else {}
for id in args or sorted(os.listdir(ROOT + "/seeded")):
    d = f"{ROOT}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for p in extra or [meta["property"]]:
            t = time.time()
            r = subprocess.run([ROOT + "/check", p], capture_output=True, text=True)
            vio = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={p}")]
            ok = r.returncode == 1 and vio
            cur = set(filter(None, caught.get(id, "").split(", ")))
            (cur.add if ok else cur.discard)(p)
            caught[id] = ", ".join(sorted(cur))
            print(f"{id:32} {p} {'caught' if ok else 'MISSED'} exit {r.returncode} {time.time()-t:.0f}s", flush=True)
            if not ok:
                print("\n".join("    " + l for l in (r.stdout + r.stderr).splitlines()[-6:]))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    json.dump(caught, open(out, "w"), indent=1, sort_keys=True)
