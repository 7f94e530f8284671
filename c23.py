#!/usr/bin/env python3
"""C23: the instrumented builds. AddressSanitizer and ThreadSanitizer builds of
the harness (code under test, dependencies and, for threads, the standard
library) run the hostile workloads of the other checks; Miri interprets a tiny
workload. A sanitizer report, an abort, or undefined behaviour is a violation;
anything that keeps an instrument from running is inconclusive."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
START = time.time()
BUILD_LIMIT = 420
RUN_LIMIT = 150 if TIER == "quick" else 300
TRIPLE = "x86_64-unknown-linux-gnu"
TARGET = os.path.join(HERE, "target")
CACHE = os.path.join(TARGET, "cache")
# (check whose workload is run, cases per process in quick, processes)
ASAN = [("C01", 4000, 2), ("C20", 3000, 1), ("C15", 250, 1), ("C19", 800, 1), ("C08", 1500, 1), ("C10", 1500, 1), ("C11", 1500, 1), ("C22", 1500, 1), ("C16", 1500, 1), ("C21", 1500, 1)]
TSAN = [("C19", 1200, 2), ("C15", 250, 2), ("C18", 800, 1), ("C20", 400, 1)]
MIRI = [(0, 1), (1, 1), (2, 2), (3, 1)]
if TIER == "thorough":
    ASAN = [(c, n * 40, p) for c, n, p in ASAN]
    TSAN = [(c, n * 40, p) for c, n, p in TSAN]
    MIRI = [(p, 6 if p == 2 else 2) for p, _ in MIRI]
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-permissive-provenance"

errors, violations, samples = [], [], []
observed = {}
fingerprints = set()
cases = 0
lock = threading.Lock()


def count(k, n=1):
    with lock:
        observed[k] = observed.get(k, 0) + n


def env(extra):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "MIRIFLAGS"):
        e.pop(k, None)
    e.update({"CARGO_NET_OFFLINE": "true", "QMON_NOLIMIT": "1", "XDG_CACHE_HOME": CACHE, "QMON_ROOT": HERE})
    e.update(extra)
    return e


def build(name, cmd, extra):
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=BUILD_LIMIT)
    except subprocess.TimeoutExpired:
        errors.append("%s build exceeded %d s" % (name, BUILD_LIMIT))
        return False
    if p.returncode != 0:
        errors.append("%s build failed: %s" % (name, p.stdout.decode(errors="replace")[-1500:]))
        return False
    return True


def asan_env():
    return {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes", "CARGO_TARGET_DIR": TARGET + "/asan"}


def tsan_env():
    return {"RUSTFLAGS": "-Zsanitizer=thread -Cforce-frame-pointers=yes", "CARGO_TARGET_DIR": TARGET + "/tsan"}


def miri_env(seed):
    return {"MIRIFLAGS": MIRIFLAGS + " -Zmiri-seed=%d" % seed, "CARGO_TARGET_DIR": TARGET + "/miri", "RAYON_NUM_THREADS": "2"}


CARGO = ["cargo", "+nightly"]
BASE = ["--offline", "--locked", "--features", "nosym"]
BUILDS = {
    "asan": (CARGO + ["build", "--release"] + BASE + ["--target", TRIPLE], asan_env()),
    "tsan": (CARGO + ["build", "--release"] + BASE + ["-Zbuild-std", "--target", TRIPLE], tsan_env()),
    "miri": (CARGO + ["miri", "run"] + BASE + ["--", "list"], miri_env(0)),
}


def replay(name, text, cmd):
    d = os.path.join(HERE, "evidence", "replay", "C23-%d-%s" % (SEED, name))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "detail.txt")
    with open(p, "w") as f:
        f.write("property C23\nseed %d tier %s\ncommand: %s\n\n%s\n" % (SEED, TIER, cmd, text))
    return p


def worker(tool, check, first, step, end, scratch):
    global cases
    exe = "%s/%s/%s/release/qmon" % (TARGET, tool, TRIPLE)
    tag = "%s-%s-%d" % (tool, check, first)
    tmp = os.path.join(scratch, tag)
    os.makedirs(tmp)
    log = os.path.join(tmp, "report")
    opts = "log_path=%s:halt_on_error=1:abort_on_error=0:exitcode=66" % log
    e = env({"ASAN_OPTIONS": opts + ":detect_leaks=0:detect_stack_use_after_return=1", "TSAN_OPTIONS": opts,
             "QMON_TMP": tmp, "RAYON_NUM_THREADS": "4", "QMON_DEADLINE": str(RUN_LIMIT)})
    cmd = [exe, "worker", check, TIER, str(SEED), str(first), str(step), str(end)]
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=RUN_LIMIT + 150)
    except subprocess.TimeoutExpired:
        errors.append("%s made no end in time" % tag)
        return
    out = p.stdout.decode(errors="replace").splitlines()
    done = out and out[-1] == "D"
    last = None
    n = 0
    fps = set()
    for l in out:
        if l.startswith("S "):
            last = l[2:]
        elif l[:2] in ("E ", "V ", "H "):
            n += 1
        elif l.startswith("F "):
            fps.add(l[2:])
        elif l.startswith("X ") and len(samples) < 6:
            samples.append("%s on %s: %s" % (tool, check, l[2:300]))
    with lock:
        cases += n
        fingerprints.update((tool, check, f) for f in fps)
    count("%s: cases of %s" % (tool, check), n)
    reports = ""
    for f in sorted(os.listdir(tmp)):
        if f.startswith("report"):
            reports += open(os.path.join(tmp, f), errors="replace").read()
    blocks = re.findall(r"^(?:==\d+==ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|FATAL: ThreadSanitizer.*|ERROR: .*Sanitizer.*|SUMMARY: .*Sanitizer.*)$", reports, re.M)
    if any("unexpected memory mapping" in b or "failed to allocate" in b.lower() or "out-of-memory" in b or "out of memory" in b.lower() for b in blocks):
        errors.append("%s could not run: %s" % (tag, blocks[0]))
        return
    if blocks:
        # one replayable detail for each process
        violations.append((tag, "%s while running case %s of %s\n%s" % (blocks[0], last, check, reports[:8000]), " ".join(cmd)))
    elif p.returncode < 0 and p.returncode != -9:
        violations.append((tag, "killed by signal %d while running case %s of %s (abort on a violated precondition of an unsafe operation, or a memory fault)" % (-p.returncode, last, check), " ".join(cmd)))
    elif not done:
        errors.append("%s ended early with status %d in case %s" % (tag, p.returncode, last))


def miri(part, seed):
    global cases
    cmd = CARGO + ["miri", "run"] + BASE + ["--", "tiny", str(part), str(SEED)]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env(miri_env(seed)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=RUN_LIMIT + 150)
    except subprocess.TimeoutExpired:
        errors.append("miri part %d made no end in time" % part)
        return
    err = p.stderr.decode(errors="replace")
    out = p.stdout.decode(errors="replace")
    tiny = [l for l in out.splitlines() if l.startswith("TINY")]
    with lock:
        cases += 1
    if re.search(r"^error: (Undefined Behavior|Data race|.*memory access|abnormal termination: the program aborted)", err, re.M | re.I):
        at = err.find("error: ")
        violations.append(("miri-%d-%d" % (part, seed), err[at:at + 8000], " ".join(cmd)))
    elif not tiny:
        errors.append("miri part %d did not finish: %s" % (part, err[err.find("error"):][:600]))
    else:
        count("miri: workloads interpreted")
        with lock:
            fingerprints.add(("miri", part, seed))
            if len(samples) < 8:
                samples.append("miri schedule %d: %s" % (seed, tiny[0]))


def main():
    scratch = tempfile.mkdtemp(prefix="qmon.C23.")
    try:
        ok = {}
        ts = []
        for k, (cmd, e) in BUILDS.items():
            t = threading.Thread(target=lambda k=k, cmd=cmd, e=e: ok.__setitem__(k, build(k, cmd, e)))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
        jobs = []
        for tool, table in (("asan", ASAN), ("tsan", TSAN)):
            if not ok.get(tool):
                continue
            for check, n, procs in table:
                for i in range(procs):
                    jobs.append(lambda tool=tool, check=check, i=i, procs=procs, n=n: worker(tool, check, i, procs, n * procs, scratch))
        if ok.get("miri"):
            for part, seeds in MIRI:
                for s in range(seeds):
                    jobs.insert(0, lambda part=part, s=s: miri(part, SEED * 1000 + s))
        it = iter(jobs)

        def run():
            while True:
                with lock:
                    j = next(it, None)
                if j is None:
                    return
                j()
        ts = [threading.Thread(target=run) for _ in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not violations and not errors and len(fingerprints) < 2000:
        errors.append("only %d distinct executions observed" % len(fingerprints))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": "C23", "tier": TIER, "seed": SEED, "level": "exploration",
        "verdict": "violated" if violations else "inconclusive" if errors else "held on what was observed",
        "coverage": {
            "evaluations": max(cases, len(fingerprints)), "distinct_nontrivial": len(fingerprints),
            "rule": "one case = one case of another check run under an instrument (AddressSanitizer, ThreadSanitizer with instrumented standard library, Miri); non-trivial and distinct by that check's own rule, per instrument",
            "samples": samples, "observed": observed,
        },
        "errors": errors,
        "assumptions": ["red-zone tools miss accesses that stay inside a live object; debug assertions on unsafe preconditions are on in every build", "the standard library is instrumented in the ThreadSanitizer build only", "Miri runs with tree borrows: the stacked-borrows rules are broken by a dependency, not by the code under test"],
        "wall_s": round(time.time() - START, 2), "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", "C23.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, text, cmd in violations[:5]:
        p = replay(name, text, cmd)
        print("%s: %s" % (name, text[:600]))
        print("VIOLATION property=C23 replay=%s" % p)
    print("C23 %s tier=%s seed=%d: %d cases, %d distinct, %d violations, %.1f s" % (ev["verdict"], TIER, SEED, cases, len(fingerprints), len(violations), time.time() - START))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("inconclusive: " + e, file=sys.stderr)
        return 2
    return 0


sys.exit(main())
