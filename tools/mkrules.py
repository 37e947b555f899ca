"""Offline search for machines/configurations that make the prover prove and use rules
(builds corpus/rules.jsonl: workload only, never an oracle)."""
import sys, os, json, random, collections, multiprocessing, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vcheck_lib as V, ref, bb, simmon
def classes(sim):
  out = set()
  p = sim.prover
  if not p: return out
  for r in p.rules.values():
    for x in (r if isinstance(r, list) else [r]):
      n = type(x).__name__
      if getattr(x, "is_meta_rule", False): n += "-meta"
      if getattr(x, "has_collatz_decrease", False): n += "-collatz"
      if getattr(x, "infinite", False): n += "-inf"
      if x.num_uses: n += "-used"
      out.add(n)
  return out
def mine(a):
  seed, secs = a
  rng = random.Random(seed); t0 = time.time(); res = []; cnt = collections.Counter()
  while time.time() - t0 < secs:
    x = rng.random()
    if x < 0.15: s = rng.choice(CORP)[0]
    elif x < 0.6: s = rng.choice(MACH)
    elif x < 0.8:
      tab = ref.parse(rng.choice(MACH)); i, j = rng.randrange(len(tab)), rng.randrange(len(tab[0]))
      if (i, j) != (0, 0): tab[i][j] = (rng.randrange(len(tab[0])), rng.randrange(2), rng.randrange(len(tab)))
      s = ref.fmt(tab)
    else:
      ns, nk = rng.choice(((3, 2), (4, 2), (4, 2), (5, 2), (5, 2), (6, 2), (2, 3), (3, 3), (2, 4), (2, 5), (4, 3), (2, 6), (7, 2)))
      tab, r = ref.tnf_tm(rng, ns, nk, 1000, halt=rng.random() < 0.7)
      if r.halted and r.steps < 200: continue
      s = ref.fmt(tab)
    for _ in range(3):
      cfg = simmon.rand_cfg(rng); cfg["opts"]["prover"] = True; cfg["opts"]["recursive"] = rng.random() < 0.8
      if rng.random() < 0.4: cfg["opts"].update(exp_linear_rules=True, recursive=True, exp_meta_linear_rules=rng.random() < 0.5)
      try:
        with V.job_limit(6), V.quiet():
          sim = simmon.make_sim(s, cfg); last = 0
          for _ in range(1500):
            sim.step()
            if sim.op_state != bb.TMm.RUNNING: break
            if not isinstance(sim.step_num, int) or sim.step_num > 10**7: break
      except (V.JobTimeout, Exception): continue
      c = classes(sim)
      key = tuple(sorted(c))
      if not c: continue
      if cnt[key] >= 12: continue
      cnt[key] += 1
      res.append({"tm": s, "cfg": cfg, "classes": key, "rule_moves": sim.num_rule_moves, "fin": str(sim.op_state)})
  return res
if __name__ == "__main__":
  CORP = bb.corpus(random.Random(0), 10**9, min_steps=100)
  MACH = [x for x in open(os.path.join(V.VERIF, "corpus", "machines.txt")).read().split()]
  MACH = [x for x in MACH if len(x) > 26] + [x for x in MACH if x.count("_") >= 5]
  with multiprocessing.Pool(8) as p:
    res = sum(p.map(mine, [(i, float(sys.argv[1])) for i in range(8)], 1), [])
  by = collections.defaultdict(list)
  for r in res: by[tuple(r["classes"])].append(r)
  out = []
  for k, l in by.items(): out += l[:60]
  random.Random(1).shuffle(out)
  with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus", "rules.jsonl"), "w") as f:
    for r in out: f.write(json.dumps(r) + "\n")
  tot = collections.Counter(c for r in out for c in r["classes"])
  print(len(out), tot)
