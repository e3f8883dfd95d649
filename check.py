#!/usr/bin/env python3
"""Run the check of one property: build the harness against /repo's working tree, run it, judge,
write the evidence file.

  check.py C01 [--tier quick|thorough]    exit 0 held, 1 violated, anything else: no answer
  check.py --replay FILE                  run the one case of a replay file again
  check.py --setup                        build everything once

VERIF_SEED and VERIF_TIER are honoured."""

import concurrent.futures
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
OUT = os.path.join(HERE, "out")
EVIDENCE = os.path.join(HERE, "evidence")

# How many times the base number of cases a quick run makes (the base numbers are in the harness).
QUICK_SCALE = {
    "C01": 3, "C02": 3, "C03": 5, "C04": 4, "C05": 6, "C06": 6, "C07": 2, "C08": 2.5,
    "C09": 3, "C10": 5, "C11": 1.3, "C12": 6, "C13": 6, "C14": 3, "C15": 8, "C16": 8,
    "C17": 8, "C18": 12, "C19": 6, "C20": 6, "C21": 2.5, "C22": 4, "C23": 4, "C24": 4,
}
LEVEL = {"C11": "fault_enumeration", "C12": "fault_enumeration"}
DEADLINE = {"quick": 240, "thorough": 2400}
# Interpreter: cases, and seconds after which no more are begun. (32-bit: a third of them, as another
# 32-bit platform gets thousands.)
MIRI = {"quick": {"cases": 72, "seconds": 240}, "thorough": {"cases": 2400, "seconds": 5000}}
MIRI_CHUNK = 4
# The crate has no unsafe code; what is left to watch is its dependencies, on one of the platforms.
MIRI_TARGETS = {
    "s390x-unknown-linux-gnu": "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation",
    "i686-unknown-linux-gnu": "",
}


class NoAnswer(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def forget(target):
    """Cargo goes by time stamps; a tree put back with old ones would look unchanged to it."""
    for d in glob.glob(os.path.join(target, "**", ".fingerprint"), recursive=True):
        for p in glob.glob(os.path.join(d, "deflate-*")) + glob.glob(os.path.join(d, "dfmon-*")):
            shutil.rmtree(p, ignore_errors=True)


def build(profile, gz=True):
    target = TARGET if gz else os.path.join(TARGET, "nogz")
    forget(target)
    e = env()
    e["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile]
    if not gz:
        cmd.append("--no-default-features")
    r = subprocess.run(cmd, cwd=HARNESS, env=e, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise NoAnswer("the harness does not build against /repo:\n" + r.stderr[-4000:])
    return os.path.join(target, profile, "dfmon")


def run(cmd, timeout, cwd=HARNESS, e=None):
    """Run a command in a process group of its own; (return code or None on timeout, stdout, stderr)."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=fo, stderr=fe, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        fo.seek(0)
        fe.seek(0)
        return rc, fo.read().decode("utf8", "replace"), fe.read().decode("utf8", "replace")


def harness(exe, args, deadline, work):
    """Run the harness. Returns its report (with a list of violations)."""
    out = os.path.join(work, "report.json")
    cmd = [exe] + args + ["--deadline", str(deadline), "--out", out]
    crashes = []
    for _ in range(2):
        if os.path.exists(out):
            os.unlink(out)
        rc, so, se = run(cmd, deadline + 240)
        if rc is None:
            raise NoAnswer("the harness did not end in time")
        if rc in (0, 1):
            with open(out) as f:
                r = json.load(f)
            if (rc == 1) != bool(r["violations"]):
                raise NoAnswer("the harness contradicts itself: exit %s" % rc)
            return r
        if rc == 2:
            raise NoAnswer("harness error: " + se[-2000:])
        if rc in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
            raise NoAnswer("the harness was ended from outside (signal %d)" % -rc)
        crashes.append((rc, se[-1500:]))
    # Died of a signal twice on the same cases: the code under test aborted or crashed the process.
    rc, se = crashes[-1]
    return {
        "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "",
        "violations": [{"stream": "*", "index": 0,
                        "message": "panic: the process was brought down (exit status %d): %s" % (rc, se)}],
    }


def zlib_check(d):
    """Every stream the harness left behind, through zlib."""
    n = 0
    bad = []
    size = 0
    for z in sorted(glob.glob(os.path.join(d, "*.z"))):
        with open(z, "rb") as f:
            s = f.read()
        with open(z[:-2] + ".d", "rb") as f:
            want = f.read()
        n += 1
        size += len(s)
        o = zlib.decompressobj(-15)
        try:
            got = o.decompress(s) + o.flush()
        except zlib.error as x:
            bad.append((z, "zlib rejects a stream of %d bytes: %s" % (len(s), x)))
            continue
        if not o.eof:
            bad.append((z, "zlib finds no end in a stream of %d bytes" % len(s)))
        elif o.unused_data:
            bad.append((z, "zlib finds %d bytes after the end" % len(o.unused_data)))
        elif got != want:
            bad.append((z, "zlib decodes %d bytes, other than the %d put in" % (len(got), len(want))))
    return n, size, bad


def keep(pid, name, paths):
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    kept = []
    for p in paths:
        q = os.path.join(d, name + os.path.splitext(p)[1])
        shutil.copyfile(p, q)
        kept.append(q)
    return kept


def check_c03(seed, tier, work):
    exe = build("release")
    emit = os.path.join(work, "emit")
    os.makedirs(emit)
    r = harness(exe, std_args("C03", seed, tier) + ["--emit", emit], DEADLINE[tier], work)
    n, size, bad = zlib_check(emit)
    r["streams_decoded_by_zlib_too"] = n
    r["bytes_decoded_by_zlib_too"] = size
    if n == 0 and not r["violations"]:
        raise NoAnswer("the harness left no streams for zlib")
    for z, m in bad[:3]:
        kept = keep("C03", os.path.basename(z)[:-2], [z, z[:-2] + ".d"])
        r["violations"].append({"stream": "zlib", "index": 0, "message": m, "files": kept})
    return r


def check_c22(seed, tier, work):
    exes = {
        "release": build("release"),
        "checked": build("checked"),
        "without gzip": build("release", gz=False),
    }
    r = harness(exes["release"], std_args("C22", seed, tier), DEADLINE[tier], work)
    scale = {"quick": 4, "thorough": 40}[tier]
    maps = {}
    for k, exe in exes.items():
        f = os.path.join(work, "digests")
        # the C22D cases do not fail by themselves: they only record digests
        h = harness(exe, ["--prop", "C22D", "--digest-only", "", "--digests", f, "--seed", str(seed),
                          "--scale", str(scale)], DEADLINE[tier], work)
        if h["violations"]:
            for v in h["violations"][:1]:
                v["message"] = "build '%s': %s" % (k, v["message"])
                r["violations"].append(v)
            return r
        with open(f) as fh:
            maps[k] = {tuple(l.split()[:2]): l.split()[2] for l in fh}
    common = None
    for m in maps.values():
        common = set(m) if common is None else common & set(m)
    if not common:
        raise NoAnswer("no common cases between the builds")
    r["builds_compared"] = {k: len(m) for k, m in maps.items()}
    r["digests_compared_across_builds"] = len(common)
    bad = sorted((c for c in common if len({m[c] for m in maps.values()}) > 1), key=lambda c: (int(c[0]), int(c[1])))
    for c in bad[:3]:
        r["violations"].append({
            "stream": "builds", "index": int(c[1]),
            "message": "the same history gives different output in different builds: "
                       + ", ".join("%s %s" % (k, m[c]) for k, m in maps.items()),
        })
    return r


def parse_platform(s):
    d = {}
    for l in s.splitlines():
        p = l.split(" ", 3)
        if len(p) >= 3 and p[0] == "D":
            d[int(p[1])] = (p[2], p[3] if len(p) > 3 else "")
    return d


def miri(target, args, timeout):
    e = env()
    e["MIRIFLAGS"] = MIRI_TARGETS[target]
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target", target, "--"] + args
    return run(cmd, timeout, e=e)


def wasm_sources():
    """A source directory with the crates that std and the harness need on WebAssembly: those that come
    with the sources of std, and copies of the harness's own, as they lie in cargo's cache."""
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    d = os.path.join(TARGET, "wasm-sources")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for p in glob.glob(os.path.join(root, "lib/rustlib/src/rust/library/vendor/*")):
        os.symlink(p, os.path.join(d, os.path.basename(p)))
    r = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "--locked"], cwd=HARNESS, env=env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise NoAnswer("cargo metadata: " + r.stderr[-1000:])
    sums = {}
    name = None
    with open(os.path.join(HARNESS, "Cargo.lock")) as f:
        for l in f:
            k, _, v = l.partition(" = ")
            v = v.strip().strip('"')
            if k == "name":
                name = v
            elif k == "version":
                name = "%s-%s" % (name, v)
            elif k == "checksum":
                sums[name] = v
    for p in json.loads(r.stdout)["packages"]:
        n = "%s-%s" % (p["name"], p["version"])
        q = os.path.join(d, n)
        if p["source"] and n in sums and not os.path.exists(q):
            shutil.copytree(os.path.dirname(p["manifest_path"]), q)
            with open(os.path.join(q, ".cargo-checksum.json"), "w") as f:
                json.dump({"files": {}, "package": sums[n]}, f)
    return d


def build_wasm():
    """The harness, with debug assertions and overflow checks, for 32-bit WebAssembly."""
    target = os.path.join(TARGET, "wasm")
    forget(target)
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = "-C link-arg=--export=wide_case"
    r = subprocess.run(
        ["cargo", "+nightly", "build", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown",
         "--profile", "checked", "--offline", "--quiet", "--locked",
         "--config", 'profile.checked.panic="abort"', "--config", "profile.checked.debug=0",
         "--config", 'source.crates-io.replace-with="here"',
         "--config", "source.here.directory=" + json.dumps(wasm_sources())],
        cwd=HARNESS, env=e, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise NoAnswer("the harness does not build for WebAssembly:\n" + r.stderr[-4000:])
    return os.path.join(target, "wasm32-unknown-unknown", "checked", "dfmon.wasm")


WIDE_CHUNK = 250
# CPU seconds one chunk may take; they need about one
WIDE_CPU = 200


def wide(seed, native, r):
    """The "wide" histories on a 32-bit machine, against the digests of this one."""
    wasm = build_wasm()
    n = len(native)

    def one(lo):
        cmd = ["prlimit", "--cpu=%d" % WIDE_CPU, "node", os.path.join(HARNESS, "wide.js"), wasm, str(seed),
               str(lo), str(min(n, lo + WIDE_CHUNK))]
        return (lo,) + run(cmd, 1500)

    compared = 0
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        for lo, rc, so, se in pool.map(one, range(0, n, WIDE_CHUNK)):
            begun = None
            for l in so.splitlines():
                p = l.split(" ", 2)
                i = int(p[1])
                if p[0] == "B":
                    begun = i
                    continue
                begun = None
                compared += 1
                m = None
                if p[0] == "T":
                    m = "a 32-bit build with overflow checks ends in a trap (%s)" % p[2]
                elif p[2] != native.get(i):
                    m = "a 32-bit build gives digest %s, this machine %s" % (p[2], native.get(i))
                if m:
                    r["violations"].append({"stream": "wide", "index": i, "target": "wasm32-unknown-unknown",
                                            "message": "case %d: %s" % (i, m)})
            if begun is not None and rc in (-signal.SIGXCPU, 128 + signal.SIGXCPU, -signal.SIGKILL):
                if rc == -signal.SIGKILL:
                    raise NoAnswer("node was ended from outside")
                r["violations"].append({"stream": "wide", "index": begun, "target": "wasm32-unknown-unknown",
                                        "message": "no termination: case %d took more than %d s of CPU time on a 32-bit build" % (begun, WIDE_CPU)})
            elif rc != 0:
                raise NoAnswer("node: exit %s: %s" % (rc, se[-1500:]))
    r["histories_compared_with_a_full_speed_32_bit_build"] = compared
    r["evaluations"] += compared


def check_c23(seed, tier, work):
    exe = build("release")
    digests = os.path.join(work, "digests")
    r = harness(exe, std_args("C23", seed, tier) + ["--digests", digests], DEADLINE[tier], work)
    if r["violations"]:
        return r
    with open(digests) as f:
        lines = [l.split() for l in f]
    native = {int(l[1]): l[2] for l in lines if l[0] == "1"}
    if not native or sorted(native) != list(range(len(native))):
        # cut short by its deadline: only the unbroken part from the start
        k = 0
        while k in native:
            k += 1
        native = {i: native[i] for i in range(k)}
    if not native:
        raise NoAnswer("no digests to compare with")
    wide(seed, native, r)
    if r["violations"]:
        r["violations"] = r["violations"][:5]
        return r
    n = MIRI[tier]["cases"]
    rc, so, se = run([exe, "platform", str(seed), "0", str(n)], 600)
    if rc != 0:
        raise NoAnswer("native platform run: exit %s: %s" % (rc, se[-1000:]))
    native = parse_platform(so)
    if len(native) != n:
        raise NoAnswer("native platform run printed %d of %d lines" % (len(native), n))
    # build the interpreter's standard library and the harness, one platform after another
    forget(os.path.join(TARGET, "miri"))
    for t in MIRI_TARGETS:
        rc, so, se = miri(t, ["platform", str(seed), "0", "0"], 600)
        if rc != 0:
            raise NoAnswer("cannot build for %s: %s" % (t, se[-2000:]))
    end = time.time() + MIRI[tier]["seconds"]
    jobs = [(t, lo, min(n, lo + MIRI_CHUNK)) for lo in range(0, n, MIRI_CHUNK) for t in MIRI_TARGETS
            if t.startswith("s390x") or lo % (3 * MIRI_CHUNK) == 0]

    def one(job):
        t, lo, hi = job
        if time.time() > end:
            return job, "late", "", ""
        return (job,) + miri(t, ["platform", str(seed), str(lo), str(hi)], 400)

    compared = {t: 0 for t in MIRI_TARGETS}
    late = 0
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        for (t, lo, hi), rc, so, se in pool.map(one, jobs):
            got = parse_platform(so)
            for i, (h, show) in sorted(got.items()):
                compared[t] += 1
                if h != native[i][0]:
                    r["violations"].append({
                        "stream": "platform", "index": i, "target": t,
                        "message": "%s: case %d gives digest %s, here %s. %s" % (t, i, h, native[i][0], show),
                    })
            if rc in ("late", None):
                late += 1
            elif rc != 0:
                # the case being run is the first that printed nothing
                i = next((k for k in range(lo, hi) if k not in got), hi)
                if "Undefined Behavior" not in se and "panicked at" not in se:
                    raise NoAnswer("%s: exit %s: %s" % (t, rc, se[-1500:]))
                r["violations"].append({
                    "stream": "platform", "index": i, "target": t,
                    "message": "%s: case %d: %s" % (t, i, se[-1500:]),
                })
    r["violations"] = r["violations"][:5]
    r["histories_compared_per_platform"] = compared
    r["interpreter_chunks_cut_short_or_not_begun"] = late
    if not r["violations"] and min(compared.values()) < 12:
        raise NoAnswer("the interpreter got through too few cases: %s" % compared)
    r["evaluations"] += sum(compared.values())
    return r


def std_args(pid, seed, tier):
    scale = QUICK_SCALE[pid] if tier == "quick" else 1
    return ["--prop", pid, "--seed", str(seed), "--tier", tier, "--scale", str(scale)]


def check_plain(pid, seed, tier, work):
    exe = build("checked" if pid == "C21" else "release")
    return harness(exe, std_args(pid, seed, tier), DEADLINE[tier], work)


SPECIAL = {"C03": check_c03, "C22": check_c22, "C23": check_c23}


def known_findings():
    try:
        with open(os.path.join(HERE, "known-findings.json")) as f:
            return json.load(f).get("findings", [])
    except FileNotFoundError:
        return []


def evidence(pid, tier, seed, r, wall, nviol):
    cov = {k: v for k, v in r.items() if k not in ("violations", "property", "wall", "planned", "done")}
    cov.setdefault("evaluations", 0)
    cov["cases_planned"] = r.get("planned", 0)
    cov["cases_run"] = r.get("done", 0)
    os.makedirs(EVIDENCE, exist_ok=True)
    e = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"),
        "coverage": cov, "wall_s": round(wall, 2), "violations": nviol,
        "assumptions": [
            "held on the executions run, nothing beyond them",
            "trusted: the harness's own inflate, Adler-32 and CRC-32 (checked against zlib in C03), rustc, the Counting allocator",
        ],
    }
    tmp = os.path.join(EVIDENCE, "." + pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))


def replay(path):
    with open(path) as f:
        v = json.load(f)
    print("%s: %s" % (v["property"], v["message"]))
    if v.get("files"):
        print("files: %s" % v["files"])
    if v["stream"] in ("zlib", "*", "builds") or v.get("target"):
        print("run the whole check: VERIF_SEED=%d python3 check.py %s --tier %s" % (v["seed"], v["property"], v["tier"]))
        return 0
    exe = build("checked" if v["property"] == "C21" else "release")
    with tempfile.TemporaryDirectory() as work:
        r = harness(exe, ["--prop", v["property"], "--seed", str(v["seed"]), "--tier", v["tier"],
                          "--stream", v["stream"], "--index", str(v["index"])], 600, work)
    for x in r["violations"]:
        print("VIOLATION again: " + x["message"])
    return 1 if r["violations"] else 0


def main(argv):
    if argv[:1] == ["--setup"]:
        build("release")
        build("checked")
        build("release", gz=False)
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in DEADLINE or pid not in QUICK_SCALE:
        print("usage: check.py C01..C24 [--tier quick|thorough]", file=sys.stderr)
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    t = time.time()
    shutil.rmtree(os.path.join(OUT, pid), ignore_errors=True)
    with tempfile.TemporaryDirectory(prefix="dfmon-") as work:
        try:
            f = SPECIAL.get(pid)
            r = f(seed, tier, work) if f else check_plain(pid, seed, tier, work)
        except (NoAnswer, subprocess.TimeoutExpired, OSError, ValueError) as x:
            print("NO ANSWER for %s: %s" % (pid, x), file=sys.stderr)
            return 2
    listed = [k for k in known_findings() if k["property"] == pid]
    fresh = []
    for v in r["violations"]:
        if not any(k["stream"] == v["stream"] and k["signature"] in v["message"] for k in listed):
            fresh.append(v)
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    evidence(pid, tier, seed, r, time.time() - t, len(fresh))
    if not fresh:
        if r["evaluations"] == 0 or r["distinct_nontrivial"] == 0:
            print("NO ANSWER for %s: nothing was observed" % pid, file=sys.stderr)
            return 2
        print("%s held on %d executions (%d distinct and non-trivial), %.0f s"
              % (pid, r["evaluations"], r["distinct_nontrivial"], time.time() - t))
        return 0
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    for n, v in enumerate(fresh[:3]):
        path = os.path.join(d, "violation-%d.json" % n)
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, seed=seed, tier=tier), f, indent=1)
        print("%s [%s %s] %s" % (pid, v["stream"], v["index"], v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
