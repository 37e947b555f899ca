#!/usr/bin/env python3
"""Write known_findings.json: the fixed defects (hash looked up in /repo's log) and the known ones."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, commit subject prefix (after "fix: "), what failed
 ("C15", "remainder of an ExpInt", "remainder of an ExpInt whose exponent is a small ExpInt raised TypeError"),
 ("C15", "allow dividing", "dividing an ExpInt by a negative integer failed an assert"),
 ("C15", "a power whose ExpInt exponent", "a power whose ExpInt exponent evaluates to 0 was taken to be huge"),
 ("C16", "compare ExpInts whose tower", "comparison of numbers whose tower representations have different heights but overlapping values was wrong"),
 ("C16", "exact sign and size", "sign and size of a sum of powers (e.g. 3^700 - 2^1100) were wrong or overflowed"),
 ("C16", "take the base into account", "size of b^(10^x) ignored the base b"),
 ("C16", "print the approximate size", "printing the size of a huge negative number recursed forever"),
 ("C17", "sum of cubes", "closed form of the sum of cubes squared the coefficient"),
 ("C17", "minimum of a symbolic power", "minimum of a power whose exponent can be 0 was too large"),
 ("C17", "minimum count above which", "Exponential rule minimum count was too low or looped forever"),
 ("C17", "repeated linear rule", "repeating the linear rule x -> a*x+b at its fixed point divided by zero/failed"),
 ("C05", "linear recurrence detection with a step limit", "linear recurrence detection with max_steps=1 raised UnboundLocalError"),
 ("C01", "run_options with the prover", "run_options with the prover turned off raised AttributeError"),
 ("C22", "set is_decided only", "a timeout inside set_halting left a halting machine recorded as decided-infinite"),
]
KNOWN = [  # property, key, what
]
if os.path.exists(os.path.join(HERE, "tools", "findings_extra.json")):
  x = json.load(open(os.path.join(HERE, "tools", "findings_extra.json")))
  FIXED += [tuple(f) for f in x["fixed"]]; KNOWN += [tuple(f) for f in x["known"]]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).strip().split("\n")]
out = []
for i, (p, pre, what) in enumerate(FIXED):
  h = [c for c, s in log if s.startswith("fix: " + pre)]
  assert len(h) == 1, (pre, h)
  out.append({"property": p, "key": f"fixed-{i+1}", "status": "fixed", "what": f"fixed: property={p} {h[0]} {what}"})
for p, key, what in KNOWN: out.append({"property": p, "key": key, "status": "known", "what": what})
for c, s in log:
  if s.startswith("fix:") and not any(s.startswith("fix: " + pre) for _, pre, _ in FIXED): print("UNLISTED", c, s); sys.exit(1)
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
