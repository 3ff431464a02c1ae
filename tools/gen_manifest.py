"""Writes MANIFEST.json: every property with an engine is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded process kills, power losses and I/O errors at every file-system call of the real cache code, several processes on one simulated disk; every returned array compared with the uncached elements",
         "seeded search over crash points, disk faults, post-crash disk states and up to 3 processes per boot; not exhaustive"),
 "C02": ("as C01, then fault-free requests: each must succeed, leave a loadable file and, asked again, write nothing; progress bounded in file-system events",
         "seeded search; progress bound 20000 events per boot"),
 "C03": ("seeded interleavings of 2-4 processes at every file-system call, with kills; results, final directory listing and file contents checked over the recorded history",
         "seeded search over schedules"),
 "C04": ("seeded histories of requests, on/off switches, deletions and caller-side writes by up to 4 processes on one simulated disk; file-system call log and results checked",
         "seeded search over histories and schedules"),
 "C05": ("kill, power-loss, torn-write and I/O-error injection at every file-system call of dump on a simulated disk with a durability model; files compared with a reference model of the samples",
         "seeded search over crash points, fault sequences and concurrent dumpers"),
 "C06": ("seeded histories of steps, additions and dumps with samplers raising at seeded calls, checked against a reference recorder", "seeded search over histories"),
 "C07": ("seeded operation histories over sources and copies with MemoryError/KeyboardInterrupt injected at numbered instructions and thread preemption; compared with undisturbed twins", "seeded search"),
 "C08": ("MemoryError/KeyboardInterrupt injected at numbered instructions of every in-place conversion, and rejected arguments; before/after states compared with an undisturbed twin", "seeded search over injection points and histories"),
 "C09": ("seeded operation histories of several clients with injected failures, refined step by step against a small executable model", "seeded search over histories"),
 "C10": ("instruction-level seeded thread schedules over one shared system; every result compared with running alone", "seeded search over interleavings of 2-4 threads"),
 "C11": ("seeded time-step histories with failing callbacks, state changes, operator swaps and thread preemption against a reference model", "seeded search"),
 "C12": ("the parallel loop's body runs on simulated workers under seeded worker counts, iteration assignments and instruction-level interleavings; elements compared with an independent evaluation", "seeded search over schedules; the compiled loop itself only sampled at several thread counts"),
 "C13": ("seeded construction histories with interrupts and thread interleavings; every result compared with a fresh process", "seeded search over histories of neighbouring configurations"),
 "C14": ("seeded and adversarial random streams through the injected array module, with concurrent consumers of the stream", "seeded search over streams and histories"),
 "C15": ("the SCF solver is cut off, perturbed or made to raise at seeded iterations and call sites", "seeded search over injection points, molecules, flags and histories"),
}
PURE = "a pure function of its arguments: no schedule, clock, I/O, randomness or failure can change the answer, so simulation with fault injection has nothing to control; deciding it needs numerical or symbolic comparison over inputs"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
eng = {"C01": "eng_cache", "C02": "eng_cache", "C03": "eng_cache", "C04": "eng_cache", "C05": "eng_dump", "C06": "eng_sample",
       "C07": "eng_object", "C08": "eng_object", "C09": "eng_object", "C10": "eng_threads", "C11": "eng_timedep",
       "C12": "eng_prange", "C13": "eng_construct", "C14": "eng_random", "C15": "eng_scf"}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C and os.path.exists(os.path.join(V, "sim", eng[i] + ".py")):
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i, "evidence_file": "evidence/%s.json" % i,
            "technique": T + C[i][0], "level": "exploration", "level_note": C[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": PURE if i not in C else "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
