#!/usr/bin/env python3
"""Mechanical sensitivity campaign: small operator mutations of /repo's non-test code, one at a time, in a
scratch copy, each swept over all families. Development tool only (no check uses it).
usage: automut.py SCRATCH LOG [-part K/N] [FILE-SUBSTRING...]   (resumes: mutants already in LOG are skipped)"""
import os, re, subprocess, sys, time, hashlib, random
work, logf = sys.argv[1:3]
rest = sys.argv[3:]
part = (0, 1)
if rest and rest[0] == "-part":
    k, n = rest[1].split("/"); part = (int(k), int(n)); rest = rest[2:]
SKIP = ("error.rs", "serde_", "mod.rs", "wal_type.rs")
os.makedirs(work + "/verif", exist_ok=True)
subprocess.run(f"rm -rf {work}/repo && mkdir -p {work}/repo {work}/verif/sim && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C {work}/repo && cd /verif/sim && tar c --exclude=./target . | tar x -C {work}/verif/sim", shell=True, check=True)
repo, sim = work + "/repo", work + "/verif/sim"
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=sim + "/target", OVSIM_ROOT=work + "/verif", CARGO_PROFILE_RELEASE_DEBUG="0", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="32", CARGO_INCREMENTAL="1")
def mutate(line):
    """(kind, new line) for one source line"""
    out = []
    s = line.rstrip("\n")
    code = s.split("//")[0]
    st = code.strip()
    if not st or st.startswith(("#", "use ", "///", "pub use", "impl", "fn ", "pub fn", "pub(crate) fn", "async fn", "pub struct", "where", "log::", "\"")):
        return out
    def rep(pat, new, kind):
        for m in re.finditer(pat, code):
            out.append((kind, s[:m.start()] + m.expand(new) + s[m.end():]))
    rep(r" == ", " != ", "eq"); rep(r" != ", " == ", "ne")
    rep(r" < ", " <= ", "lt"); rep(r" <= ", " < ", "le"); rep(r" > ", " >= ", "gt"); rep(r" >= ", " > ", "ge")
    rep(r" && ", " || ", "and"); rep(r" \|\| ", " && ", "or")
    rep(r" \+ 1\b", " + 2", "plus2"); rep(r" \+ 1\b", "", "plus0"); rep(r" - 1\b", "", "minus0")
    rep(r" \+= 1\b", " += 2", "pluseq"); rep(r" \* ", " / ", "mul")
    rep(r"\btrue\b", "false", "true"); rep(r"\bfalse\b", "true", "false")
    rep(r"\.is_some\(\)", ".is_none()", "some"); rep(r"\.is_none\(\)", ".is_some()", "none")
    rep(r"\.is_ok\(\)", ".is_err()", "ok"); rep(r"\.is_err\(\)", ".is_ok()", "err")
    rep(r"\bif !", "if ", "not")
    rep(r"\bVoteType::Prevote\b", "VoteType::Precommit", "pv"); rep(r"\bVoteType::Precommit\b", "VoteType::Prevote", "pc")
    rep(r"\bINIT_ROUND\b", "(INIT_ROUND + 1)", "init")
    rep(r"\bself\.round\b(?! =)", "(self.round + 1)", "round"); rep(r"\bself\.height\b(?! =)", "(self.height + 1)", "height")
    m = re.match(r"^(\s*(?:\} else )?if )((?!let\b).*)( \{)$", s)
    if m:
        out.append(("iffalse", f"{m[1]}false && ({m[2]}){m[3]}"))
        out.append(("iftrue", f"{m[1]}true || ({m[2]}){m[3]}"))
    if st.endswith(";") and not st.startswith(("let ", "return", "break", "continue", "}", ")", ".", "pub ", "const", "static", "type ", "log")) and st.count("(") == st.count(")") and "?;" in st + "" or (st.endswith(");") and re.match(r"^(self|[a-z_]+)\.", st) and st.count("(") == st.count(")")) or re.match(r"^self\.[a-z_.]+ = .*;$", st):
        out.append(("del", re.match(r"^\s*", s)[0] + "{ }"))
    if st in ("continue;", "break;"): pass
    if re.match(r"^return Ok\(.*\);$", st): out.append(("noret", re.match(r"^\s*", s)[0] + "{ }"))
    return out
muts = []
for d, _, fs in os.walk(repo + "/src"):
    for f in sorted(fs):
        p = os.path.join(d, f)
        rel = p[len(repo) + 5:]
        if any(x in rel for x in SKIP) or (rest and not any(x in rel for x in rest)): continue
        lines = open(p).read().split("\n")
        for i, l in enumerate(lines):
            if "cfg(test)" in l and lines[i + 1].startswith("mod "): break
            prev = [x.strip() for x in lines[max(0, i - 8):i]]
            if any(x.startswith("log::") for x in prev) and not any(x.endswith(");") for x in prev[-(len(prev) - max(k for k, x in enumerate(prev) if x.startswith("log::"))):]): continue
            for k, new in mutate(l):
                muts.append((rel, i, k, l, new))
random.Random(7).shuffle(muts)
done = set()
if os.path.exists(logf):
    done = {l.split("\t")[1] for l in open(logf) if "\t" in l}
muts = [m for j, m in enumerate(muts) if j % part[1] == part[0]]
print(len(muts), "mutants", flush=True)
seen = set()
for rel, i, k, old, new in muts:
    key = hashlib.sha1(f"{rel}:{old}:{new}:{i}".encode()).hexdigest()[:10]
    if key in done or key in seen: continue
    seen.add(key)
    p = f"{repo}/src/{rel}"
    src = open(p).read()
    lines = src.split("\n"); lines[i] = new
    open(p, "w").write("\n".join(lines))
    t = time.time()
    b = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=sim, env=env, capture_output=True, text=True)
    res, hit = "NOBUILD", {}
    if b.returncode == 0:
        res = "SURVIVED"
        for count in ("250", "3000"):
            r = subprocess.run(["timeout", "300", sim + "/target/release/ovsim", "sweep", "--count", count, "--jobs", "8"], env=env, cwd=work, capture_output=True, text=True)
            hit = {}
            for l in r.stdout.splitlines():
                m = re.match(r"^(\w\d\d) (.*?): (\d+) runs", l)
                if m: hit[m[1]] = hit.get(m[1], 0) + int(m[3])
            if r.returncode not in (0, 1): hit["rc%d" % r.returncode] = 1
            if hit: res = "killed"; break
    open(p, "w").write(src)
    with open(logf, "a") as f:
        f.write(f"{res}\t{key}\t{rel}:{i+1}\t{k}\t{old.strip()}\t=>\t{new.strip()}\t{hit}\t{time.time()-t:.0f}\n")
