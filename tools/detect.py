#!/usr/bin/env python3
"""Each planted bug against its property's quick check, in a scratch copy. usage: detect.py SCRATCH [NAME...]
Development tool only."""
import json, os, subprocess, sys, time
work = sys.argv[1]
names = sys.argv[2:] or sorted(os.listdir("/verif/seeded"))
subprocess.run(f"rm -rf {work}/repo && mkdir -p {work}/repo {work}/verif/sim {work}/verif/replays {work}/verif/evidence && cd /repo && tar c --exclude=./target . | tar x -C {work}/repo && cd /verif/sim && tar c --exclude=./target . | tar x -C {work}/verif/sim && cp /verif/*.sh /verif/*.json /verif/*.jsonl {work}/verif/", shell=True, check=True)
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
for n in names:
    d = f"/verif/seeded/{n}"
    prop = json.load(open(d + "/meta.json"))["property"]
    p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=work + "/repo", capture_output=True, text=True)
    if p.returncode:
        print(n, "does not apply", p.stderr[:200]); continue
    t = time.time()
    p = subprocess.run([f"{work}/verif/check.sh", prop, "quick"], env=env, cwd=work + "/verif", capture_output=True, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    o = [l for l in p.stdout.splitlines() if prop in l and not l.startswith("VIOLATION")]
    good = p.returncode == 1 and any(f"property={prop}" in l for l in v)
    print("caught" if good else "MISSED", prop, n, f"rc {p.returncode} ({time.time()-t:.0f} s)", (o or p.stderr.splitlines() or [""])[0][:200], flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work + "/repo", check=True)
