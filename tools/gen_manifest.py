#!/usr/bin/env python3
"""Write MANIFEST.json from the table below; a property is claimed once its check exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("lock-step trace monitor of the simulator against an independent reference executor", "exploration", "Every simulator step of every run of the workload is compared with a C reference executor (tape, head, state, steps, score). Trusts the reference; configurations too large for it are counted but not compared."),
 "C02": ("verdict monitor: reference executor run on every machine judged infinite or halting", "exploration", "Infinite verdicts are refuted by actually running the machine; the workload is dense in machines that halt late."),
 "C03": ("hooked rule adoption; adopted rules instantiated and replayed on the reference executor", "exploration", "Each adopted rule is replayed on many counts at and above its minimum, through the real apply code and through its stated formula. Bounded counts."),
 "C04": ("hooked macro transition table checked against in-block reference execution", "exploration", "Every macro transition built in the workload is recomputed on the isolated block."),
 "C05": ("recurrence certificate monitor: reported period, offset and start replayed on the reference executor", "exploration", "Certificates are re-verified exactly (a finite check that implies the infinite claim) and minimality is checked exhaustively."),
 "C06": ("verdict monitor of the CTL deciders over late-halting machines, plus closure replay", "exploration", "Soundness refuted by machines that halt; the workload includes machines that halt just after the cut-off."),
 "C07": ("verdict and coverage monitor of the CPS decider against real trajectories", "exploration", "Halting machines must never be accepted; visited local configurations must lie in the set."),
 "C08": ("verdict monitor of the backtracking and reverse-engineering deciders against real runs", "exploration", "Halting machines must never be rejected; machines halting right at or below the depth are oversampled."),
 "C09": ("quasihalt verdict monitor: last visits observed by the reference executor", "exploration", "Last visits are observed over a long horizon; exact for recurrent machines."),
 "C10": ("offline partition checker over enumeration output (independent enumerator, completion count, statuses re-run)", "exploration", "Exhaustive for the classes listed in evidence."),
 "C11": ("history checker over interrupted, reordered and continued enumerations", "exploration", "Stop points and orders are sampled; results compared as multisets."),
 "C12": ("round-trip monitor over all formats with before/after snapshots of the live machine", "exploration", "Random and boundary machine sizes; malformed text rejected."),
 "C13": ("round-trip monitor over records and big numbers", "exploration", "Random values biased to representation boundaries."),
 "C14": ("crash-point enumeration: every truncation byte of record files", "fault_enumeration", "All truncation points of the generated files, read, skipped and mixed."),
 "C15": ("shadow-arithmetic monitor: ExpInt operations checked against exact integers and modular evaluation", "exploration", "Values that fit are compared exactly, towers modulo many primes."),
 "C16": ("order monitor: ExpInt comparisons checked against exact or interval-evaluated logs", "exploration", "Near-ties beyond the stated tolerance are excluded and counted."),
 "C17": ("evaluation monitor: symbolic operations checked against pointwise evaluation", "exploration", "Random expressions, operations and assignments."),
 "C18": ("bisimulation monitor of transformed machines on the reference executor", "exploration", "Runs of original and transformed machine compared, canonical forms compared over random renamings."),
 "C19": ("ASan/UBSan builds of the C++ simulators under hostile inputs, differential against the reference executor", "exploration", "Sanitized binaries rebuilt from the tree; outputs compared with the reference."),
 "C20": ("offline checkers over C++ enumerator output (partition, certificates, split/continue), sanitized build", "exploration", "Exhaustive for small classes; all outputs re-run."),
 "C21": ("event-log checker (exactly-once, order, termination) over simulated message schedules", "exploration", "Real queue code on a fake MPI with randomised schedules and deadlock detection."),
 "C22": ("exception injection at every line event of the decider pipeline", "fault_enumeration", "Alarm raised at sampled/each trace event; record compared with the truth."),
 "C23": ("conservation checker over inputs and outputs of the record tools", "exploration", "Multiset equality of records modulo the fields a tool adds."),
 "C24": ("acceptance monitor: accepted rules replayed at concrete assignments; overflow checks and panics observed", "exploration", "Real crate built offline with a shim for enum-map; mutated proofs."),
 "C25": ("conservation checker over the files of whole driver-script runs, with failing shards and leftovers injected; rm replaced by a recording stand-in", "exploration", "Scripts run end to end in a scratch directory with real and table-driven filters."),
 "C26": ("online checker of every displayed row against a cell-by-cell run; the curses viewer runs in a real terminal (pty) under scripted keys with its pad read back at every refresh", "exploration", "Viewers run unmodified; only the keyboard is scripted and the screen read back."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
  if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
    t, lv, note = T[p]
    checks.append({"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
                   "technique": "runtime monitoring: " + t, "level": lv, "level_note": note})
  else:
    na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: monitors attach from /verif (monkey-patching, sys.settrace, sanitizer builds). Every check builds what it needs."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
