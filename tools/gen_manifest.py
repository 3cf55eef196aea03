#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and check.py's table."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
T = {
    "C01": ("seeded preemption at every memory access, race detection and comparison with calls made alone", "Sampled schedules of 2-4 simulated threads over the real header; races judged on the accesses the library makes at -O1."),
    "C02": ("seeded permanent stalls inside calls with bounded-steps progress of the others", "Sampled stall points over the real header, including while holding locks and inside one-time initialisation."),
    "C03": ("seeded same-thread interruption at memory accesses", "Sampled interruption points and nested calls over the real header; the interrupting calls are those that allocate nothing."),
    "C04": ("seeded call histories with damaged-number and out-of-memory calls, against fresh-process references", "Sampled histories; each checked call compared bit for bit with the same call alone in a fresh process."),
    "C05": ("seeded perturbation of ambient state behind seams, plus two builds with differing uninitialised memory", "Sampled ambient states: heap and stack bytes, placement, clock, random source, environment, errno, floating-point flags and mode, thread, and where arguments lie."),
    "C06": ("recording stand-ins for all input and output, with broken standard streams, damaged numbers and failing allocations", "Sampled calls; every input or output path of the C and C++ libraries and the standard descriptors are observed."),
    "C07": ("calls placed before static initialisation, in main and after static destruction of fresh process images", "Sampled calls and orders of phases; all published constants hashed in each phase."),
    "C08": ("seeded allocation failure at every depth inside calls", "Sampled calls and failing allocations over a simulated heap that also detects leaks and misuse."),
    "C09": ("seeded operation histories with save and reload against a byte-array model", "Sampled histories; contents, cursor, end flag and results compared after each operation."),
    "C10": ("seeded typed histories with save and reload against a byte-order model", "Sampled histories; bytes, cursor and values compared after each operation."),
    "C11": ("seeded reserve, adjust and align histories with save and reload against a model", "Sampled histories; every byte, the length and the cursor compared after each operation."),
    "C12": ("seeded string-field histories with save and reload against a model", "Sampled histories including empty strings, zero bytes and lengths above 64 KiB."),
    "C13": ("storage-fault injection (truncation, torn writes, zeroed ranges, bit flips) against a damage-tracking model", "Sampled damage; containment observed by a guarded simulated heap and by the address sanitizer."),
    "C14": ("seeded allocation failure inside stream operations against a prefix model", "Sampled histories and failing allocations over the simulated heap."),
    "C15": ("seeded source-memory disturbance and preemption of threads using distinct streams, against independent models", "Sampled histories, disturbances and interleavings."),
    "C16": ("numeric arguments passed through damaged storage, lost and duplicated readings, bounded-steps and containment checks", "Sampled damage; containment observed by the simulated heap and by the address and bounds sanitizers."),
    "C17": ("storage-fault injection on profile images with the source freed or overwritten and failing allocations", "Sampled images; containment observed by the simulated heap and by the address sanitizer."),
    "C18": ("seeded loss, duplication and reordering of readings against the generating matrix", "Sampled deliveries; accuracy bound proportional to the conditioning of what was delivered."),
    "C19": ("the other properties' faulted histories, inspected after every call for memory, locks, handlers, threads and settings left behind", "Sampled histories over the simulated heap and synchronisation; process-wide calls are counted by stand-ins that perform them."),
    "C20": ("the other properties' faulted histories on long data, stack depth watched at every basic block", "Sampled histories with up to 22000 readings and hundreds of kilobytes; depth measured on the -O1 build."),
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are the compiler's instrumentation calls and symbol redirection of the compiled header. Replay: python3 check.py --replay FILE."}
for p in props:
    i = p["id"]
    if i in check.PLAN:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": "deterministic simulation with fault injection: " + T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "A pure function of its arguments: no schedule, clock, fault, storage or second party is involved, so there is nothing for a simulator to decide; deciding it would be plain input generation."})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
