"""writes MANIFEST.json from properties.jsonl and the notes below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
HOW = {
 "C01": ("seeded thread schedules, stalls and heap layouts; runs compared with the serial run", "Explores seeded schedules at memory-access granularity for 1-16 workers; a deviation above rounding of the summation order is reported."),
 "C02": ("seeded schedules; results compared with a reference model built from the runs of the single histories", "Exact for generated inputs: the mean and standard deviation of every bin identify missing, repeated and foreign histories down to rounding of the printed digits."),
 "C03": ("seeded schedules and regroupings of one seed range into batches", "Every cut of a seed range into batches must yield the same sums; deviations above print rounding are reported."),
 "C04": ("seeded schedules; means and standard deviations recomputed from single-history runs and from closed forms", "Recomputes both moments from single-history runs; covers splitting, fission chains, indirect effects and repeated crossings as generated."),
 "C05": ("happens-before race detection on every simulated schedule", "Vector-clock detection over all instrumented accesses of src/ and header-inlined library code; races inside precompiled libraries are not seen."),
 "C06": ("seeded schedules with stalled workers; deadlock detection and step bounds relative to the work of the single histories", "Progress is judged in simulated steps; a run that needs more steps than its histories and workers is reported."),
 "C07": ("seeded subsets of thread creations fail", "Covers any subset of up to 64 creations and several errno values."),
 "C08": ("seeded histories of whole problems with exactly known balances under seeded schedules", "Closed-form cascades and shells: exact integer balances per run; bins of a current add up to the unbinned current."),
 "C09": ("paired simulations with and without tallies, perturbations and bins, under different schedules", "Tallies common to two runs must agree to rounding."),
 "C10": ("every write-side I/O call fails, is cut short or interrupted; full disk, closed and full standard output", "Each write-side operation of a run is a candidate fault point; sampled per case, all operations over a run of the check."),
 "C11": ("kill, abort and I/O or allocation failure at seeded points, followed by a rerun in the surviving directory", "Process-kill semantics (what reached the kernel survives); power failure is not modelled."),
 "C12": ("every read-side I/O call fails, is cut short, interrupted or ends early; files truncated, missing, emptied or overwritten at rest", "Damage that yields another valid file is out of scope."),
 "C13": ("an input or data file is atomically replaced before a seeded file operation", "Covers every operation on the file as replacement point, for value, axis and size changes and for versions the schema rejects."),
 "C14": ("seeded single, repeated and persistent allocation failures in any thread", "Covers every allocation through malloc and operator new; failures inside the kernel are not modelled."),
 "C15": ("seeded heap layouts and contents, clocks, entropy, identifiers, environment, standard output and leftovers", "Byte comparison for one worker, rounding comparison for several."),
 "C16": ("failing histories at every position of the batch under seeded schedules", "Which histories fail is established by single-history runs."),
 "C17": ("seeded sequences of create, solve and destroy in one process under seeded schedules", "Each solve is compared with a run in a fresh process."),
 "C18": ("runs under seeded schedules, faults and kills; the directory tree compared before and after, changes outside it intercepted", "Every name and content in a populated directory tree is compared; changes outside it are recorded and denied."),
 "C19": ("several simulated processes in one directory, interleaved by a seeded order of their file operations, with kills", "Two to four processes; interleaving at file operations; results compared with runs alone."),
 "C20": ("heap accounting over seeded runs: long batches against short ones, repeated create, solve and destroy rounds", "Peak heap of a batch against its parts; held memory, descriptors and threads over rounds of operations."),
 "C21": ("seeded stalls of one worker; the others must use up the remaining work before it continues", "Judged in simulated steps by the majority of several stall points per input."),
 "C22": ("every instrumented heap access of seeded faulty runs is checked against the allocator's blocks", "Heap only; accesses made inside precompiled libraries and to stack and static objects are not checked."),
}
PURE = "it is a pure function of its input: no schedule, clock, I/O, fault or crash point can influence it, so there is nothing for a simulator to decide; "
NA = {
 "N01": PURE + "its observable consequences for whole histories are part of C08",
 "N02": PURE + "that the bins of a current add up to the unbinned current is part of C08",
 "N03": PURE + "tables read wrongly because of faults are C12 and C13",
 "N04": "a statistical law of a pure function of the seed; deciding it needs hypothesis tests over samples, not schedules or faults. That the stream of random numbers depends on the seed alone is C03 and C15",
 "N05": PURE + "inputs damaged by I/O faults are C12",
 "N06": "a limit theorem about expectations of a pure function of the seeds; no schedule or fault can influence it",
 "N07": "the eigenvalue solver is not available in this tree and refuses to run, so there is no iteration to simulate; that it refuses instead of reporting is part of C16",
 "N08": PURE + "whether the majorant bounds the total is a numerical fact about data tables",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "python3 sim/build.py",
 "hooks": {"guard": "MINIMC_SIM", "enable": "no hook in /repo was needed: sim/build.py compiles /repo/src with -DMINIMC_SIM and -fsanitize=thread and links it against the simulator's runtime in place of the sanitizer's", "source_commits": []},
 "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
             "evidence_file": "evidence/%s.json" % p["id"], "technique": T + HOW[p["id"]][0], "level": "exploration",
             "level_note": HOW[p["id"]][1] + " Seeded search, not exhaustive; trusts the simulator's runtime, sequential consistency and that uninstrumented libraries are preempted only at intercepted calls."}
            for p in props if p["id"] in HOW],
 "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] in NA],
 "notes": "see DESIGN.md; ./check replay <file> repeats a reported violation",
}
assert len(m["checks"]) + len(m["not_applicable"]) == len(props)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
