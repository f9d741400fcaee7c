#!/usr/bin/env python3
"""Mutation testing in a scratch copy (never in /repo).
mutate.py <workdir> <seed> <count> [file-substring]
workdir holds repo/ (copy of /repo) and verif/ (copy of /verif, its path
dependency rewritten to workdir/repo).  Appends JSON lines to workdir/mut.jsonl.
"""
import json, os, random, re, subprocess, sys, time
W, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4] if len(sys.argv) > 4 else ""
REPO, VER = W + "/repo", W + "/verif"
MAP = {
 "src/linestring_2d.rs": "01 02 03 06 07 09 11 15 17 18 19 21 23 25 26 27 10 13 24",
 "src/linestring_2d/convex_hull.rs": "07 08 09 10 24 27",
 "src/linestring_2d/intersection.rs": "04 06 24",
 "src/linestring_2d/indexed_intersection.rs": "05 24",
 "src/linestring_2d/simplify.rs": "11 13",
 "src/linestring_3d/simplify.rs": "12 14",
 "src/linestring_2d/impls.rs": "15 17 25 26 04 19",
 "src/linestring_3d/impls.rs": "16 25 26 19",
 "src/linestring_3d.rs": "12 14 16 18 19 22 23 25 26",
 "src/shape.rs": "20",
 "src/lib.rs": "26 22",
}
SUB = [(r"<=", "<"), (r">=", ">"), (r"(?<![-=<>])>(?![=>])(?= )", ">="), (r"(?<![<-])<(?![=<])(?= )", "<="),
 (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?= )", "&&"),
 (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"),
 (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b2\b", "3"), (r"\b2\b", "1"), (r"\b3\b", "2"),
 (r"\bZERO\b", "ONE"), (r"\bONE\b", "ZERO"), (r"\bTWO\b", "ONE"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"), (r"\.z\(\)", ".x()"),
 (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"(?<=[ (])!(?=[a-z(])", ""), (r"Left", "Right"), (r"Right", "Left"),
 (r"Greater", "Less"), (r"Less", "Greater"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
 (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\bceil\b", "floor"), (r"\.sqrt\(\)", ""), (r"\.abs\(\)", ""),
 (r"\+= ", "-= "), (r"if ([^{]+) \{$", r"if true {"), (r"if ([^{]+) \{$", r"if false {"), (r"is_some\(\)", "is_none()"),
 (r"is_empty\(\)", "len() == 1"), (r"\bXY\b", "XZ"), (r"\bYZ\b", "XZ"), (r"-(?=T::|[a-z])", ""), (r"\ball\(", "any("), (r"\bany\(", "all("),
 (r"ulps_eq!\(([^,()]+), ([^,()]+)\)", r"(\1 == \2)"), (r"saturating_sub\((\w+)\)", r"saturating_sub(\1 + 1)")]
def code_lines(path):
    out, com = [], False
    for i, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if s.startswith("/*"): com = True
        if not com and s and not s.startswith("//") and not s.startswith("#") and not s.startswith("use ") and not s.startswith("pub use"):
            out.append(i)
        if "*/" in s: com = False
    return out
def env():
    e = dict(os.environ, PBT_MULT="0.15", VERIF_SEED="5", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", RUSTFLAGS="--force-warn unused-attributes", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    return e
def sh(cmd, timeout, cwd):
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout), "bash", "-c", cmd], cwd=cwd, env=env(), capture_output=True, text=True, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except Exception as ex:
        return 99, str(ex)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests():
    rc, o = sh(f"ulimit -v 8000000; rm -f {W}/t.log {W}/t.json; cargo test --workspace --no-fail-fast --offline --features glam,cgmath -- --test-threads 8 > {W}/t.log 2>&1; python3 /opt/vp/results.py {W}/t.json cargo:{W}/t.log", 150, REPO)
    try:
        r = json.load(open(W + "/t.json"))
    except Exception:
        return False
    p = r.get("passed", r)
    if isinstance(p, dict): p = [k for k, v in p.items() if v in (True, "pass", "passed", "ok")]
    return STABLE <= set(p)
def checks(ids):
    bins = " ".join(f"--bin p{i}" for i in ids)
    rc, o = sh(f"cargo build --offline --release --quiet --manifest-path pbt/Cargo.toml --target-dir pbt/target {bins}", 600, VER)
    if rc: return None, o[-400:]
    hit, odd = [], []
    for i in ids:
        rc, o = sh(f"VERIF_DIR={VER} pbt/target/release/p{i} quick", 300, VER)
        if rc == 1 and "VIOLATION" in o: hit.append(i)
        elif rc != 0: odd.append((i, rc))
        if hit and len(hit) >= 3: break
    return hit, odd
def main():
    rnd = random.Random(SEED)
    files = [f for f in MAP if ONLY in f]
    pool = []
    for f in files:
        src = open(f"{REPO}/{f}").read().split("\n")
        for i in code_lines(f"{REPO}/{f}"):
            for a, b in SUB:
                for m in re.finditer(a, src[i]):
                    n = src[i][:m.start()] + m.expand(b) + src[i][m.end():]
                    if n != src[i]: pool.append((f, i, n))
            if src[i].strip().endswith(";") and not src[i].strip().startswith(("let ", "return", "}")):
                pool.append((f, i, ""))
    rnd.shuffle(pool)
    done = set()
    if os.path.exists(W + "/mut.jsonl"):
        for l in open(W + "/mut.jsonl"):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    k = 0
    for f, i, n in pool:
        if k >= COUNT: break
        if (f, i + 1, n) in done: continue
        k += 1
        p = f"{REPO}/{f}"
        orig = open(p).read()
        L = orig.split("\n"); old = L[i]; L[i] = n
        rec = {"file": f, "line": i + 1, "old": old, "new": n}
        t0 = time.time()
        try:
            open(p, "w").write("\n".join(L))
            rc, o = sh("cargo check --offline --features glam,cgmath", 120, REPO)
            if rc: rec["res"] = "nocompile"
            elif not tests(): rec["res"] = "tests"
            else:
                hit, odd = checks(MAP[f].split())
                rec["res"] = "caught" if hit else "SURVIVED"
                rec["by"] = hit; rec["odd"] = odd
        finally:
            open(p, "w").write(orig)
        rec["t"] = round(time.time() - t0, 1)
        open(W + "/mut.jsonl", "a").write(json.dumps(rec) + "\n")
main()
