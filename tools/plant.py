#!/usr/bin/env python3
"""Makes and confirms planted bugs. usage: plant.py SCRATCH [NAME...]
For each entry of BUGS: scratch copy of /repo, patch, build, stable tests, demonstration with and
without; then /verif/seeded/NAME/{patch.diff,meta.json,demo.sh,puppet.rs,scenario.rs}. The scenario
is taken from SCRATCH/sc/NAME.rs when there, else from the seeded directory. Development tool only."""
import json, os, subprocess, sys, shutil
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
work = sys.argv[1]
names = sys.argv[2:] or list(BUGS)
repo = work + "/repo"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
os.makedirs(work, exist_ok=True)
if not os.path.exists(repo):
    sh(f"cp -a /repo {repo}")
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", repo)
env = "CARGO_NET_OFFLINE=true"
def tests():
    p = sh(f"{env} timeout 600 cargo test --workspace --offline 2>&1", repo, 900)
    ok = set()
    for l in p.stdout.splitlines():
        l = l.strip()
        if l.startswith("test ") and l.endswith("... ok"):
            ok.add(l[5:].split(" ... ")[0])
    missing = [s for s in stable if not any(s.endswith("::" + o) for o in ok)]
    return missing, p.stdout
for n in names:
    b = BUGS[n]
    d = f"/verif/seeded/{n}"
    os.makedirs(d, exist_ok=True)
    sc = f"{work}/sc/{b.get('scenario', n)}.rs"
    if os.path.exists(sc):
        shutil.copy(sc, d + "/scenario.rs")
    for f in ("demo.sh", "puppet.rs"):
        shutil.copy2(f"{here}/puppet/{f}", f"{d}/{f}")
    if "features" in b:
        open(d + "/features", "w").write(b["features"])
    sh("git checkout -q -- .", repo)
    bad = None
    for f, old, new in b["edits"]:
        p = f"{repo}/src/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            bad = f"pattern occurs {s.count(old)} times in {f}: {old[:60]!r}"
            break
        open(p, "w").write(s.replace(old, new))
    if bad:
        print(n, "BAD", bad); continue
    diff = sh("git diff", repo).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.split()[0]
    orig = 0
    for l in diff.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            o = any(l[1:].rstrip() == x.rstrip("\n").rstrip() for f in {e[0] for e in b["edits"]} for x in sh(f"git show {base}:src/{f}", repo).stdout.splitlines())
            orig += o
            if not o:
                print(n, "NOTE changes a line of a fix:", l)
    if not orig:
        print(n, "NOTE removes no original line")
    missing, out = tests()
    if missing:
        print(n, "BAD tests", missing, out[-1500:] if "error" in out else ""); continue
    with_ = sh(f"bash {d}/demo.sh", repo, 300)
    sh("git checkout -q -- .", repo)
    without = sh(f"bash {d}/demo.sh", repo, 300)
    good = with_.returncode not in (0, 2, 3) and without.returncode == 0
    print(n, "ok" if good else "BAD demo", "| with:", with_.returncode, with_.stdout.strip()[-200:], "| without:", without.returncode, without.stdout.strip()[-200:], flush=True)
