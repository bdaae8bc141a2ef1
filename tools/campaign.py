#!/usr/bin/env python3
"""Sensitivity campaign: applies one source change at a time to a scratch copy of /repo, builds the
simulator against it, and sweeps all families; prints which rules fire. Development tool only (no
check uses it). usage: campaign.py SCRATCH [-c RUNS] [NAME...]
The changes are in mutants.py: NAME: (property, [(file, old, new), ...])."""
import os, subprocess, sys, re, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import MUTANTS
args = sys.argv[1:]
work = args.pop(0)
count = "4000"
if args and args[0] == "-c":
    args.pop(0); count = args.pop(0)
ALL = "-all" in args  # all families at once instead of the property's own mix first
if ALL: args.remove("-all")
names = args or list(MUTANTS)
os.makedirs(work + "/verif", exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", work + "/repo/"], check=True) if shutil.which("rsync") else subprocess.run(f"rm -rf {work}/repo && mkdir -p {work}/repo && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C {work}/repo", shell=True, check=True)
subprocess.run(f"mkdir -p {work}/verif/sim && cd /verif/sim && tar c --exclude=./target . | tar x -C {work}/verif/sim", shell=True, check=True)
repo, sim = work + "/repo", work + "/verif/sim"
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=sim + "/target", OVSIM_ROOT=work + "/verif")
def build(rl):
    e = dict(env, CARGO_TARGET_DIR=env["CARGO_TARGET_DIR"] + "/rl") if rl else env
    p = subprocess.run(["cargo", "build", "--release", "--offline"] + (["--features", "random_leader"] if rl else []), cwd=sim, env=e, capture_output=True, text=True)
    return p.returncode == 0, p.stderr
for n in names:
    prop, edits = MUTANTS[n][:2]
    saved = {}
    ok = True
    for f, a, b in edits:
        p = f"{repo}/src/{f}"
        s = open(p).read()
        saved.setdefault(p, s)
        if s.count(a) != 1:
            print(f"{n}: pattern occurs {s.count(a)} times in {f}"); ok = False; break
        open(p, "w").write(s.replace(a, b))
    t0 = time.time()
    if ok:
        rl = prop == "P02"
        b, err = build(rl)
        if not b:
            print(f"{n}: does not build\n" + "\n".join(err.splitlines()[-30:]))
        else:
            base = [sim + ("/target/rl" if rl else "/target") + "/release/ovsim", "sweep", "--count", count, "--jobs", "8"]
            # the property's own mix first, then all families
            for extra in ([] if ALL else [["--property", prop, "--only", prop]]) + [[]]:
                p = subprocess.run(["timeout", "300"] + base + extra, env=env, cwd=work, capture_output=True, text=True)
                v = [l for l in p.stdout.splitlines() if re.match(r"^[A-Z]\d\d ", l)]
                hit = {}
                for l in v:
                    m = re.match(r"^(\w\d\d) (.*?): (\d+) runs", l)
                    hit[m[1]] = hit.get(m[1], 0) + int(m[3])
                if prop in hit: break
            flag = "ok  " if prop in hit else ("PART" if hit else "MISS")
            print(f"{flag} {n} wants {prop} got {hit} ({time.time()-t0:.0f} s){'' if p.returncode == 0 else ' rc %d' % p.returncode}", flush=True)
            if "-v" in os.environ.get("CAMP", ""):
                for l in v: print("     ", l[:260])
    for p, s in saved.items():
        open(p, "w").write(s)
