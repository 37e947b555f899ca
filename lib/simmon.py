"""Monitors of the macro simulator: lock-step trace checker and verdict monitor."""
import json, os, random
import ref, bb
import vcheck_lib as V

def rand_cfg(rng, wild=True):
  c = {"k": rng.choice((1, 1, 1, 2, 2, 3, 3, 4, 5, 6)) if rng.random() < 0.9 else rng.choice((8, 12, 20, 40, 60)), "back": rng.random() < 0.5}
  c["offset"] = rng.randrange(c["k"]) if c["k"] > 1 and rng.random() < 0.25 else 0
  o = {"prover": rng.random() < 0.85}
  if o["prover"]:
    o["recursive"] = rng.random() < 0.6
    o["limited_rules"] = rng.random() < 0.25
    o["exp_linear_rules"] = o["recursive"] and rng.random() < 0.35
    o["exp_meta_linear_rules"] = o["exp_linear_rules"] and rng.random() < 0.5
    o["max_num_reps"] = rng.choice((1, 2, 3, 10, 10, 10, 100))
    o["max_prover_configs"] = rng.choice((3, 50, 100000))
  if rng.random() < 0.08: o["compute_steps"] = False
  c["opts"] = o
  return c

def rule_corpus():
  out = []
  for f in ("rules.jsonl", "rules2.jsonl"):
    for l in open(os.path.join(V.VERIF, "corpus", f)): out.append(json.loads(l))
  return out

def make_sim(tm_str, cfg, **extra):
  tm = bb.IO.parse_tm(tm_str)
  o = bb.options(**cfg["opts"], **extra)
  m = bb.macro(tm, cfg["k"], cfg["offset"], cfg["back"])
  return bb.Sim.Simulator(m, o)

def trace_check(job, tm_str, cfg, max_loops, budget, tape_limit=20000):
  """Lock-step comparison of the simulator with the reference executor."""
  tab = ref.parse(tm_str)
  r = ref.Ref(tab)
  sim = make_sim(tm_str, cfg)
  T = bb.TMm
  prev = 0; synced = True; kinds = set(); nsteps_checked = 0
  def bad(what, **kw):
    job.violation(what, tm=tm_str, cfg=cfg, loop=sim.num_loops, step_num=str(sim.step_num), **kw)
  for _ in range(max_loops):
    before = (sim.num_macro_moves, sim.num_chain_moves, sim.num_rule_moves)
    sim.step()
    op = sim.op_state
    if op == T.GAVE_UP: job.count("gave_up"); break
    if op == T.INF_REPEAT:
      job.count("infinite_verdicts")
      r.run(max(r.steps, budget))
      if r.halted: bad("reported infinite but halts", halts_at=r.steps)
      break
    if sim.compute_steps:
      n = sim.step_num
      if not isinstance(n, int) or n > budget: job.count("beyond_reference_budget"); break
      if n <= prev: bad("step count did not advance", prev=prev); break
      prev = n
      r.run(n)
    after = (sim.num_macro_moves, sim.num_chain_moves, sim.num_rule_moves)
    for i, nm in enumerate(("macro_steps", "chain_steps", "rule_steps")):
      if after[i] > before[i]: job.count(nm + "_checked"); kinds.add(nm)
    if op in (T.HALT, T.UNDEFINED):
      if not sim.compute_steps:
        r.run(budget)
        if not r.halted: job.count("beyond_reference_budget"); break
      if not r.halted or (sim.compute_steps and r.steps != sim.step_num):
        r.run(budget)
        bad("reported halt differs", ref_halted=r.halted, ref_steps=r.steps); break
      if sim.get_nonzeros() != r.nonzeros(): bad("halt score differs", got=str(sim.get_nonzeros()), want=r.nonzeros())
      sy, st = sim.op_details[0][:2]
      if (int(st), int(sy)) != (r.from_state, r.from_symbol): bad("halting transition differs", got=[int(st), int(sy)], want=[r.from_state, r.from_symbol])
      if (op == T.UNDEFINED) != r.undefined: bad("undefined/halt confusion", op=op)
      if not bb.too_big(sim.tape, tape_limit):
        e = bb.expand(sim)
        if e is not None and bytes(e[0] + e[1]).strip(b"\0") != r.support()[1]: bad("final tape differs")
      job.count("halts_checked")
      break
    if op != T.RUNNING: bad("unexpected condition", op=str(op)); break
    if r.halted: bad("still running after the machine halted", halts_at=r.steps); break
    if bb.too_big(sim.tape, tape_limit): job.count("tape_too_big"); break
    e = bb.expand(sim)
    if e is None: continue
    left, right, st, d, ends = e
    if not ends: bad("tape ends not blank"); break
    if not d and not left: left = [0]
    if sim.compute_steps:
      diff = r.same(left, right, d, st)
      if diff: bad("configuration differs", diff=diff); break
    else:
      # step counting is off: the configuration must still be on the trajectory
      if not r.match(left, right, d, st, budget):
        if r.halted: bad("configuration is not on the trajectory (machine halted)"); break
        job.count("no_step_match_in_budget"); break
      job.count("stepless_configs_checked")
    if sim.get_nonzeros() != sum(1 for x in left + right if x): bad("symbol count differs"); break
    nsteps_checked += 1
  job.count("configs_checked", nsteps_checked)
  if "rule_steps" in kinds: job.nontrivial((tm_str, str(cfg)))
  return r
