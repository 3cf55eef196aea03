#!/usr/bin/env python3
"""check.py <property>            run the check (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE        replay a recorded violation: exit 1 if it happens again
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

WORKERS = 8
ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C",
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0"}

# property -> flavour -> (runs per worker quick, seconds quick, runs per worker thorough, seconds thorough)
PLAN = {
    "C01": {"main": (4000, 60, 400000, 1800)},
    "C02": {"main": (4000, 60, 400000, 1800)},
    "C03": {"main": (5000, 60, 500000, 1800)},
    "C04": {"main": (3500, 60, 300000, 1800)},
    "C05": {"main": (7000, 45, 500000, 1200), "diff": (60000, 60, 3000000, 900)},
    "C06": {"main": (12000, 60, 800000, 1800)},
    "C07": {"main": (1800, 60, 150000, 1800)},
    "C08": {"main": (4500, 60, 400000, 1800)},
    "C09": {"main": (20000, 60, 1500000, 1800)},
    "C10": {"main": (20000, 60, 1500000, 1800)},
    "C11": {"main": (20000, 60, 1500000, 1800)},
    "C12": {"main": (6000, 60, 500000, 1800)},
    "C13": {"main": (9000, 50, 600000, 1200), "asan": (1500, 50, 60000, 900)},
    "C14": {"main": (18000, 60, 1200000, 1800)},
    "C15": {"main": (12000, 60, 1000000, 1800)},
    "C16": {"main": (8000, 50, 600000, 1200), "asan": (2000, 50, 100000, 900)},
    "C17": {"main": (16000, 40, 1000000, 900), "asan": (4000, 50, 150000, 900)},
    "C18": {"main": (7000, 60, 500000, 1800)},
    "C19": {"main": (7000, 60, 500000, 1800)},
    "C20": {"main": (3000, 60, 250000, 1800)},
}
RULES = {
    "C01": "2-4 simulated threads each make a few random library calls on shared constants and arguments; the seeded scheduler preempts at memory accesses inside the calls. Non-trivial: at least one preemption inside a call.",
    "C02": "2-4 simulated threads; one is stopped for ever at a random access inside a call, the others must finish. Non-trivial: a stall or preemption inside a call happened.",
    "C03": "a call is interrupted at random accesses by further calls on the same thread, as by a signal handler. Non-trivial: at least one interruption inside a call.",
    "C04": "random histories of calls including calls on damaged numbers and calls that ran out of memory, then checked calls. Non-trivial: at least one such disturbance happened before a checked call.",
    "C05": "calls made under randomised heap and stack contents, allocator placement, errno, floating-point flags, clock, random source, environment and thread. Every case is non-trivial (its ambient state differs from the reference's); distinct counts (execution, ambient state) pairs.",
    "C06": "calls and stream operations with the standard streams closed, full or broken, with damaged numbers and failing allocations. Every case is non-trivial; distinct counts (execution, state of the streams) pairs.",
    "C07": "calls made before any static initialiser ran, in main, and after static objects were destroyed, each run in a fresh process image. Non-trivial: at least one call outside main.",
    "C08": "calls during which one allocation, or every allocation from one on, fails; then the same call again. Non-trivial: an allocation failed inside a call.",
    "C09": "random histories of raw reads, writes, gets, puts, seeks and save/reload on streams against a byte-array model. Non-trivial: more than three operations.",
    "C10": "random histories of typed puts and gets with byte-order changes, overwrites, seeks and save/reload against the model. Non-trivial: more than three operations.",
    "C11": "random histories of reserving, adjusting, aligning, mixed with other operations and save/reload against the model. Non-trivial: more than three operations.",
    "C12": "random histories of string fields mixed with other operations and save/reload against the model. Non-trivial: more than three operations.",
    "C13": "a history of writes, then truncation, torn writes, zeroed ranges and bit flips of the stored image, then reads of every kind. Non-trivial: a storage fault was applied.",
    "C14": "random stream histories in which one allocation, or every allocation from one on, fails inside an operation. Non-trivial: an allocation failed inside an operation.",
    "C15": "streams made from caller memory that is then overwritten, freed and reused; copies and distinct streams used by several simulated threads. Non-trivial: source memory was disturbed or a preemption happened inside an operation.",
    "C16": "numeric arguments pass through damaged storage; chart readings are lost or duplicated; undamaged twins and follow-up calls are compared. Non-trivial: at least one argument was damaged.",
    "C17": "profile images, valid and truncated, torn, zeroed or bit-flipped, loaded with the source freed or overwritten afterwards and with failing allocations. Non-trivial: the source was disturbed.",
    "C18": "chart readings related by a fixed matrix delivered with loss, duplication and reordering. Every case with at least three readings counts; distinct counts executions.",
    "C19": "the histories of the other properties - preemption, interruption, failing allocations, damaged data, disturbed sources - looked at after each call and at the end for memory, locks, handlers, threads and process settings left behind. Every case is non-trivial; distinct counts executions.",
    "C20": "the histories of the other properties with very long data (thousands of readings, hundreds of kilobytes), the stack depth watched at every basic block. Every case is non-trivial; distinct counts executions.",
}
REAL = "all of include/colorsystem.hpp, compiled unchanged from /repo's working tree, libstdc++ containers and libm"
STUB = "operator new/delete and malloc (simulated heap), thread scheduling (simulator), pthread locks, thread-local and one-time initialisation, clocks, random sources, environment, file and standard-stream calls (recording stand-ins)"


def run_proc(cmd, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env or ENV)


def known(prop):
    sigs, lines = [], {}
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            sigs.append(m.group(2))
            lines[m.group(2)] = m.group(3).strip()
    return sigs, lines


class Pool:
    """The workers of one flavour."""

    def __init__(self, exe, prop, seed, count, secs, out, sigs):
        self.p = []
        for w in range(WORKERS):
            so = open(os.path.join(out, "out.%s.%d" % (os.path.basename(exe), w)), "w+")
            se = open(os.path.join(out, "err.%s.%d" % (os.path.basename(exe), w)), "w+")
            cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--count", str(count), "--time", str(secs), "--out", out]
            if sigs:
                cmd += ["--known", ",".join(sigs)]
            self.p.append((subprocess.Popen(cmd, stdout=so, stderr=se, env=ENV, start_new_session=True), so, se))
        self.deadline = time.time() + secs + 120

    def wait(self):
        res, errs = [], []
        found = None
        while True:
            st = [q.poll() for q, _, _ in self.p]
            if found is None and any(s == 1 for s in st):
                found = time.time()
            if all(s is not None for s in st):
                break
            if time.time() > self.deadline or (found and time.time() > found + 3):
                for q, _, _ in self.p:
                    if q.poll() is None:
                        os.killpg(q.pid, signal.SIGKILL)
                        q.wait()
                break
            time.sleep(0.05)
        for q, so, se in self.p:
            q.wait()
            so.seek(0)
            se.seek(0)
            t, e = so.read(), se.read()
            try:
                res.append(json.loads(t))
            except ValueError:
                if not found:
                    errs.append("worker ended with %s: %s" % (q.returncode, e[-400:]))
        return res, errs


def hashes(files):
    a, b = set(), set()
    for f in files:
        d = open(f, "rb").read()
        cur = a
        for (h,) in struct.iter_unpack("<Q", d):
            if h == 0:
                cur = b
            else:
                cur.add(h)
    return a, b


def diff_run(exes, seed, count, secs, out):
    """The same calls in two builds that differ only in what uninitialised variables hold."""
    procs = []
    for w in range(4):
        for f, m in (("o0z", "z"), ("o0p", "p")):
            so = open(os.path.join(out, "diff.%s.%d" % (f, w)), "w+")
            procs.append((w, f, so, subprocess.Popen([exes[f], "results", m, "--prop", "C05", "--seed", str(seed), "--worker", str(w), "--count", str(count), "--time", str(secs)],
                                                      stdout=so, stderr=subprocess.DEVNULL, env=ENV)))
    outs = {}
    for w, f, so, q in procs:
        q.wait()
        so.seek(0)
        outs[w, f] = so.read().splitlines()
    n, bad, kinds = 0, [], set()
    for w in range(4):
        d = {}
        for a in outs[w, "o0z"]:
            if len(a.split()) == 6:
                d[tuple(a.split()[:3])] = a
        for b in outs[w, "o0p"]:
            if len(b.split()) != 6 or tuple(b.split()[:3]) not in d:
                continue
            a = d[tuple(b.split()[:3])]
            n += 1
            kinds.add(tuple(a.split()[:2]))
            if a != b:
                bad.append((a.split()[0], a.split()[1], w, a.split()[2]))
    return n, len(kinds), bad


def one_result(exes, op, aseed):
    return pair(exes, ["one"], ["--op", op, "--args", aseed])


def batch_result(exes, seed, w, start):
    return pair(exes, ["results"], ["--prop", "C05", "--seed", str(seed), "--worker", str(w), "--start", start, "--count", str(int(start) + 1)])


def pair(exes, mode, args):
    return [run_proc([exes[f]] + mode + [m] + args).stdout.strip() for f, m in (("o0z", "z"), ("o0p", "p"))]


def replay(path):
    t = open(path).read()
    if t.startswith("SIMDIFF"):
        m = re.search(r"^op (\S+) args (\d+)$", t, re.M)
        exes = build.build(["o0z", "o0p"])
        h = re.search(r"^batch seed (\d+) worker (\d+) start (\d+)$", t, re.M)
        a, b = batch_result(exes, h.group(1), h.group(2), h.group(3)) if h else one_result(exes, m.group(1), m.group(2))
        print("REPLAY", "result differs" if a != b else "no violation", "|", a[:300], "|", b[:300])
        return 1 if a != b else 0
    fl = re.search(r"^flavour (\S+)", t, re.M).group(1)
    exe = build.build([fl])[fl]
    p = run_proc([exe, "replay", path])
    sys.stdout.write(p.stdout)
    return p.returncode


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    plan = PLAN[prop]
    fl = []
    for f in plan:
        fl += ["o0z", "o0p"] if f == "diff" else [f]
    try:
        exes = build.build(fl)
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    tb = time.time() - t0
    sigs, texts = known(prop)
    out = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    try:
        return body(prop, seed, tier, plan, exes, sigs, texts, out, t0, tb)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def keep(prop, src):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, os.path.basename(src))
    shutil.copyfile(src, dst)
    return dst


def body(prop, seed, tier, plan, exes, sigs, texts, out, t0, tb):
    res, errs, flav = [], [], {}
    violation = None
    unstable = []
    diffcov = None
    for f, (qc, qs, tc, ts) in plan.items():
        count, secs = (qc, qs) if tier == "quick" else (tc, ts)
        if f == "diff":
            n, kinds, bad = diff_run(exes, seed, count, secs, out)
            diffcov = {"calls_compared_between_builds": n, "distinct_calls": kinds, "differences": len(bad)}
            for op, aseed, w, start in bad:
                path = os.path.join(out, "C05-diff-s%d.plan" % seed)
                for how, f2 in (("", lambda: one_result(exes, op, aseed)), ("batch seed %d worker %d start %s\n" % (seed, w, start), lambda: batch_result(exes, seed, w, start))):
                    x, y = f2(), f2()
                    if x == y and x[0] != x[1]:
                        open(path, "w").write("SIMDIFF 1\nop %s args %s\n%s# zero-filled   %s\n# pattern-filled %s\n" % (op, aseed, how, x[0].replace("\n", "; "), x[1].replace("\n", "; ")))
                        violation = (keep(prop, path), "result", op, "%s gives another result when uninitialised memory holds other bytes" % op)
                        break
                if violation:
                    break
                unstable.append("difference of %s not reproduced" % op)
            if violation:
                break
            continue
        t1 = time.time()
        r, e = Pool(exes[f], prop, seed, count, secs, out, sigs).wait()
        res += r
        errs += e
        flav[f] = {"workers": WORKERS, "seconds": round(time.time() - t1, 2), "runs": sum(x["runs"] for x in r)}
        for x in r:
            v = x["violation"]
            if not v or violation:
                continue
            a = run_proc([exes[f], "replay", v["replay"]])
            b = run_proc([exes[f], "replay", v["replay"]])
            if a.returncode == 1 and b.returncode == 1 and " exact " in a.stdout and a.stdout == b.stdout:
                violation = (keep(prop, v["replay"]), v["kind"], v["where"], v["msg"])
            else:
                unstable.append("replay of %s at %s differs: %s / %s" % (v["kind"], v["where"], a.stdout.strip()[:200], b.stdout.strip()[:200]))
        if violation:
            break
    mism = sum(x["rerun_differs"] for x in res)
    dist, inter = hashes([x["hashfile"] for x in res if os.path.exists(x["hashfile"])])
    tot = lambda k: sum(x[k] for x in res)
    faults = {}
    for x in res:
        for k, v in x["faults"].items():
            if v:
                faults[k] = faults.get(k, 0) + v
    wall = time.time() - t0
    secs = max(0.001, sum(f["seconds"] for f in flav.values()))
    cov = {
        "evaluations": tot("runs") + (diffcov["calls_compared_between_builds"] if diffcov else 0),
        "distinct_nontrivial": len(dist) + (diffcov["distinct_calls"] if diffcov else 0),
        "rule": RULES[prop],
        "samples": [s for x in res[:1] for s in x["samples"]][:2],
        "simulated_runs": tot("runs"),
        "seeds": "every run has its own seed derived from VERIF_SEED=%d, worker and run number" % seed,
        "runs_per_hour": int(tot("runs") / secs * 3600),
        "simulated_time": "logical: %d instrumented memory accesses and %d basic blocks executed under the simulator" % (tot("events"), tot("steps")),
        "library_calls": tot("items"),
        "reference_calls_in_fresh_processes": tot("refs"),
        "calls_failing_alone_left_out": tot("broken_alone"),
        "preemptions": tot("switches"),
        "distinct_interleavings": len(inter),
        "interleaving_measure": "hash of the sequence of (thread switched to, access number in its call, operation)",
        "faults_injected": faults,
        "runs_with_faults": tot("faulted"),
        "basic_blocks_reached_per_worker": max([x["blocks"] for x in res] or [0]),
        "same_seed_reruns": tot("rerun"),
        "same_seed_reruns_that_differed": mism,
        "failures_of_other_properties_seen": sorted(set(s for x in res for s in x["other"])),
        "flavours": flav,
        "ran_real_code": REAL,
        "ran_as_stub": STUB,
        "build_seconds": round(tb, 1),
    }
    if prop == "C18":
        cov["worst_error_over_allowed"] = max([x["worst"] for x in res] or [0])
    if diffcov:
        cov["two_build_comparison"] = diffcov
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": ["seeded sampling: a clean batch is evidence, not proof", "preemption, stall and interruption points are the instrumented accesses and synchronisation calls of the library code at -O1"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for s in sigs:
        if tot("known"):
            print("KNOWN-FINDING: property=%s %s" % (prop, texts[s]))
    print("%s: %d runs, %d distinct non-trivial, %d interleavings, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], len(inter), wall))
    if violation:
        print("%s at %s: %s" % (violation[1], violation[2], violation[3]))
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    if errs or unstable or mism or not cov["evaluations"]:
        print("ERROR", errs[:3], unstable[:3], "same-seed mismatches:", mism)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
