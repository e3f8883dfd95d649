#!/usr/bin/env python3
"""Mutation run: small edits of /repo's sources, one at a time, in scratch copies; which survive the
monitors? Not used by any check.

  mutate.py OUT.json [--files a.rs,b.rs] [--n 100] [--seed 1] [--workers 4] [--scale 0.4]
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue, glob

ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--files", default="")
ap.add_argument("--n", type=int, default=100)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--workers", type=int, default=4)
ap.add_argument("--scale", default="0.4")
ap.add_argument("--root", default="/tmp/mut")
A = ap.parse_args()
ORDER = "C01 C04 C02 C16 C17 C20 C18 C15 C19 C03 C05 C06 C07 C08 C09 C10 C12 C13 C11 C22 C14 C24 C21".split()

OPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > ", " < "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
    (r"(?<![\w.])(\d+)(?![\w.])", None),
    (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"^(\s+)([a-z_][\w.\[\]]*(\([^{}]*\))?[^{}=]*;)$", "del"),
    (r"^(\s+)([a-z_][\w.\[\]]* [-+|&]?= [^{}]*;)$", "del"),
    (r"if (?!let)([^{]+) \{", "neg"), (r"while (?!let)([^{]+) \{", "negw"),
    (r"\bMAX_MATCH\b", ["(MAX_MATCH - 1)"]), (r"\bMIN_MATCH\b", ["(MIN_MATCH + 1)"]),
    (r"\bwindow_size\b", ["(window_size - 1)"]), (r"\bWINDOW_SIZE\b", ["(WINDOW_SIZE - 1)"]),
]


def sources():
    fs = sorted(glob.glob("/repo/src/*.rs"))
    fs = [f for f in fs if os.path.basename(f) not in ("test_utils.rs",)]
    if A.files:
        want = A.files.split(",")
        fs = [f for f in fs if os.path.basename(f) in want]
    return fs


def mutants():
    out = []
    for f in sources():
        lines = open(f).read().split("\n")
        intest = 0
        skip = False
        for n, l in enumerate(lines):
            if re.match(r"\s*#\[cfg\((all\()?(test|any\(test)", l):
                # skip to the end of the item
                skip = True
                depth = 0
                seen = False
                continue
            if skip:
                depth += l.count("{") - l.count("}")
                if "{" in l:
                    seen = True
                if (seen and depth <= 0) or (not seen and l.rstrip().endswith(";")):
                    skip = False
                continue
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "assert" in s or s.startswith("fn ") or s.startswith("pub fn"):
                continue
            code = l.split(" //")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if reps == "del":
                        if s.startswith(("return", "let", "break", "continue", "pub", "type", "const")):
                            continue
                        out.append((f, n, l, "// deleted"))
                        continue
                    if reps == "neg":
                        out.append((f, n, l, l[:m.start()] + "if !(" + m.group(1) + ") {" + l[m.end():]))
                        continue
                    if reps == "negw":
                        continue
                    if reps is None:
                        v = int(m.group(1))
                        rr = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
                    else:
                        rr = reps
                    for r in rr:
                        out.append((f, n, l, l[:m.start()] + r + l[m.end():]))
    return out


def setup(k):
    w = "%s/w%d" % (A.root, k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    os.makedirs(w + "/harness")
    shutil.copytree("/verif/harness/src", w + "/harness/src")
    shutil.copy("/verif/harness/Cargo.lock", w + "/harness/Cargo.lock")
    t = open("/verif/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % w)
    open(w + "/harness/Cargo.toml", "w").write(t)
    return w


def one(w, m):
    f, n, old, new = m
    rel = os.path.relpath(f, "/repo")
    src = open(f).read().split("\n")
    assert src[n] == old
    src[n] = new
    open(os.path.join(w, "repo", rel), "w").write("\n".join(src))
    env = dict(os.environ, CARGO_TARGET_DIR=w + "/target", CARGO_NET_OFFLINE="true")
    try:
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=w + "/harness", env=env, capture_output=True, text=True)
        if r.returncode:
            return "nobuild", ""
        for p in ORDER:
            exe = w + "/target/release/dfmon"
            if p == "C21":
                r = subprocess.run(["cargo", "build", "--profile", "checked", "--offline", "-q"], cwd=w + "/harness", env=env, capture_output=True, text=True)
                exe = w + "/target/checked/dfmon"
            try:
                r = subprocess.run([exe, "--prop", p, "--seed", "7", "--scale", A.scale, "--threads", "2", "--max-violations", "1", "--cpu-limit", "12", "--deadline", "120", "--out", w + "/r.json"], capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return "timeout", p
            if r.returncode == 1:
                try:
                    msg = json.load(open(w + "/r.json"))["violations"][0]["message"]
                except Exception:
                    msg = "?"
                return "killed", p + " " + msg[:200]
            if r.returncode != 0:
                return "killed", p + " rc %d" % r.returncode
        # do the tests see it?
        try:
            r = subprocess.run(["cargo", "test", "--offline", "-q", "--lib"], cwd=w + "/repo", env=dict(env, CARGO_TARGET_DIR=w + "/ttarget"), capture_output=True, text=True, timeout=300)
            return "SURVIVED", "tests pass" if r.returncode == 0 else "tests fail"
        except subprocess.TimeoutExpired:
            return "SURVIVED", "tests hang"
    finally:
        shutil.copy(f, os.path.join(w, "repo", rel))


def main():
    ms = mutants()
    random.Random(A.seed).shuffle(ms)
    print(len(ms), "mutants possible")
    ms = ms[:A.n]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    res = []
    lock = threading.Lock()

    def work(k):
        w = setup(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            s, d = one(w, m)
            with lock:
                res.append({"file": os.path.basename(m[0]), "line": m[1] + 1, "old": m[2].strip(), "new": m[3].strip(), "status": s, "by": d})
                json.dump(res, open(A.out, "w"), indent=1)
                if s in ("SURVIVED", "timeout"):
                    print(s, d, os.path.basename(m[0]), m[1] + 1, "|", m[2].strip(), "|", m[3].strip(), flush=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(A.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    from collections import Counter
    print(Counter(r["status"] for r in res))
    shutil.rmtree(A.root, ignore_errors=True)


main()
