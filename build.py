#!/usr/bin/env python3
"""Builds the simulator flavours from /repo's working tree into /verif/build.

main   library code instrumented at every memory access and basic block; the simulator is its runtime
asan   library code under the address and bounds sanitizers, simulator scheduling one thread
o0z/o0p  unoptimised, automatic variables pre-set to zeros / to a pattern
"""
import os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")
ENGINE = ["rt", "args", "model", "exec", "phase", "run", "gen", "main"]
WRAP = "-Wl,--wrap=fopen,--wrap=fopen64,--wrap=open,--wrap=open64"
COV = "-fsanitize-coverage=trace-pc,trace-cmp"
TSAN = ["-fsanitize=thread", COV]


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def redefs(path, mem):
    out = []
    text = re.sub(r"//.*", "", open(os.path.join(SIM, "syms.def")).read())
    for kind, name in re.findall(r"\b(IO|AMB|SYN|MEM|GLB)\((\w+)", text):
        if kind in ("MEM", "GLB") and not mem:
            continue
        out.append("%s sim_%s_%s" % (name, kind.lower(), name))
    open(path, "w").write("\n".join(out) + "\n")


def sut(name, flags, mem):
    o = os.path.join(BUILD, "sut_%s.o" % name)
    sh(["g++", "-std=gnu++17", "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-pie", "-include", os.path.join(SIM, "pre.h"),
        "-I", os.path.join(REPO, "include"), "-I", SIM] + flags + ["-c", os.path.join(SIM, "sut.cpp"), "-o", o])
    r = os.path.join(BUILD, "redef_%s.txt" % name)
    redefs(r, mem)
    sh(["objcopy", "--redefine-syms=" + r, o])
    return o


def engine(asan):
    d = "-DSIM_ASAN" if asan else "-DSIM_MAIN"
    outs = []
    for f in ENGINE:
        o = os.path.join(BUILD, "%s_%s.o" % (f, "asan" if asan else "main"))
        outs.append((["g++", "-std=c++17", "-O2", "-g1", "-w", "-fno-pie", d, "-c", os.path.join(SIM, f + ".cpp"), "-o", o], o))
    return outs


# what an unoptimised build would do: allocations, stores to dying objects and unused loads stay
KEEP = ["-fno-allocation-dce", "-fno-lifetime-dse", "-fno-tree-dse", "-fno-tree-dce", "-fno-dce", "-fno-dse"]
FLAVOURS = {
    "main": (["-O1"] + KEEP + TSAN, False),
    "o0z": (["-O0", "-ftrivial-auto-var-init=zero"] + TSAN, False),
    "o0p": (["-O0", "-ftrivial-auto-var-init=pattern"] + TSAN, False),
    "asan": (["-O1"] + KEEP + ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", COV], True),
}


def build(flavours):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        kinds = set(FLAVOURS[f][1] for f in flavours)
        with ThreadPoolExecutor(8) as ex:
            suts = {f: ex.submit(sut, f, FLAVOURS[f][0], not FLAVOURS[f][1]) for f in flavours}
            objs = {}
            for k in kinds:
                objs[k] = []
                for cmd, o in engine(k):
                    jobs.append(ex.submit(sh, cmd))
                    objs[k].append(o)
            for j in jobs:
                j.result()
            for f in flavours:
                asan = FLAVOURS[f][1]
                o = suts[f].result()
                exe = os.path.join(BUILD, "sim_" + f)
                tmp = exe + ".tmp"
                if asan:
                    sh(["g++", "-no-pie", "-fsanitize=address,bounds", "-o", tmp, o] + objs[asan] + ["-lpthread"])
                else:
                    sh(["g++", "-static", "-no-pie", WRAP, "-o", tmp, o] + objs[asan] + ["-lpthread"])
                os.replace(tmp, exe)
    return {f: os.path.join(BUILD, "sim_" + f) for f in flavours}


if __name__ == "__main__":
    try:
        print(build(sys.argv[1:] or list(FLAVOURS)))
    except BuildError as e:
        print(e)
        sys.exit(2)
