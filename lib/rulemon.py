"""Monitor of the prover: configurations at which it adopted or applied a rule are re-instantiated
with other counts and the prover's answer is replayed on the reference executor."""
import math, random
import ref, bb, simmon
import vcheck_lib as V

_ORIG = bb.PS.Proof_System.log_and_apply
_WATCH = {}   # the one prover being watched
def _hooked(self, tape, state, step_num, loop_num):
  w = _WATCH.get(id(self))
  if w is None or w["prover"] is not self: return _ORIG(self, tape, state, step_num, loop_num)
  found, stats = w["found"], w["stats"]
  before = self.num_rules
  res = _ORIG(self, tape, state, step_num, loop_num)
  hit = res.condition != bb.PS.NOTHING_TO_DO
  new = self.num_rules > before
  if new: stats["adopted"] += 1
  if hit: stats["inf" if res.condition == bb.PS.INF_REPEAT else "applied"] += 1
  if (hit or new) and len(found) < w["cap"]:
    key = (repr(state), tape.dir, tuple((b.symbol, b.num == 1) for b in tape.tape[0]), tuple((b.symbol, b.num == 1) for b in tape.tape[1]))
    if key not in found: found[key] = (state, tape.copy())
  return res
bb.PS.Proof_System.log_and_apply = _hooked

def watch(sim, cap):
  """Hook log_and_apply of the base prover (its frozen copies inside proofs are not watched):
  collect (state, tape) templates where a rule was adopted or applied."""
  pr = sim.prover
  w = {"prover": pr, "found": {}, "stats": {"applied": 0, "adopted": 0, "inf": 0}, "cap": cap}
  _WATCH.clear(); _WATCH[id(pr)] = w
  return pr, (lambda *a: _ORIG(pr, *a)), w["found"], w["stats"]

def evalnum(x):
  if isinstance(x, int): return x
  try: return bb.try_eval(x)
  except Exception: return None

def flatten(tape, state, limit):
  t = tape.copy()
  n = 0
  for side in t.tape:
    for b in side[1:]:
      v = evalnum(b.num)
      if v is None or not isinstance(v, int): return None
      b.num = v
      n += v * len(bb.flat(b.symbol))
      if v < 0: return "negative"
      if n > limit: return None
  return bb.expand_tape(t, state, t.dir)

def ref_at(tab, e):
  left, right, st, d, ok = e
  r = ref.Ref(tab, 1 << 22)
  seg = left + right
  pos = len(left) if d else len(left) - 1
  r.set(seg, 0, pos, st)
  return r

def vary(rng, tape, mode, machine, limited):
  t = tape.copy()
  for side in t.tape:
    for b in side[1:]:
      if b.num == 1: continue
      if mode == 0: b.num = rng.randint(2, 5)
      elif mode == 1: b.num = rng.randint(2, 40)
      elif mode == 2: b.num = rng.choice((2, 3, rng.randint(50, 400)))
      elif mode == 3:
        v = evalnum(b.num)
        b.num = max(2, (v if isinstance(v, int) and v < 2000 else 20) + rng.randint(-3, 3))
      elif mode == 4: b.num = rng.choice((2, 3, 4, 5, 1000 + rng.randrange(9)))
  if limited:
    for side in t.tape:
      if rng.random() < 0.5: continue
      syms = [b.symbol for s in t.tape for b in s]
      last = side[1].symbol if len(side) > 1 else side[0].symbol
      for _ in range(rng.randint(1, 3)):
        sy = rng.choice(syms)
        if isinstance(sy, tuple) and rng.random() < 0.5: sy = tuple(rng.choice((0, 1, sy[i])) for i in range(len(sy)))
        if sy == last: continue
        side.insert(1, bb.Tape.Repeated_Symbol(sy, rng.randint(1, 6)))
        last = sy
      if len(side) > 1 and side[1].symbol == side[0].symbol: del side[1]
  return t

def shape(tape, state): return (repr(state), tape.dir, tuple((b.symbol, b.num == 1) for b in tape.tape[0][1:]), tuple((b.symbol, b.num == 1) for b in tape.tape[1][1:]))
def counts(tape): return [b.num for s in tape.tape for b in s[1:]]

def recurs(tm_str, cfg, tape, state, max_loops):
  """Does the plain (prover-less) simulator come back to the same shape with counts >= those of an earlier
  visit?  (Not necessarily the first: a rule may lead every start to one small configuration that repeats.)
  True / False (provably went elsewhere: halted) / None (not seen in budget)."""
  c = dict(cfg, opts={"prover": False, "compute_steps": False})
  sim = simmon.make_sim(tm_str, c)
  sim.tape = tape.copy(); sim.state = state; sim.dir = tape.dir
  want = shape(tape, state); base = [counts(tape)]
  for i in range(max_loops):
    sim.step()
    if sim.op_state == bb.TMm.INF_REPEAT: return True
    if sim.op_state != bb.TMm.RUNNING: return False
    if sim.tape.dir == tape.dir and shape(sim.tape, sim.state) == want:
      now = counts(sim.tape)
      if any(all(a >= b for a, b in zip(now, old)) for old in base): return True
      if len(base) < 40: base.append(now)
  return None

def check(job, tm_str, cfg, rng, loops, cap=10, variants=8, budget=3_000_000, cells=6000, check_seen=False):
  tab = ref.parse(tm_str)
  sim = simmon.make_sim(tm_str, cfg)
  if not sim.prover: return
  pr, log_and_apply, found, stats = watch(sim, cap)
  for _ in range(loops):
    sim.step()
    if sim.op_state != bb.TMm.RUNNING: break
    if _ & 31 == 0 and sim.tape.compressed_size() > 300: break
  for k, v in stats.items(): job.count("rules_" + k if k == "adopted" else "run_" + k, v)
  pr.frozen = True
  limited = bool(cfg["opts"].get("limited_rules"))
  for state, tape in found.values():
    inf_done = 0
    for v in range(variants):
      t = tape.copy() if v == 0 else vary(rng, tape, rng.randrange(5), sim.machine, limited)
      e = flatten(t, state, cells)
      if e is None: job.count("instances_too_big"); continue
      orig = t.copy()
      data = dict(tm=tm_str, cfg=cfg, start=repr(orig), state=str(state))
      res = log_and_apply(t, state, 0, 10**9 + v)
      job.count("instances_tried")
      if res.condition == bb.PS.NOTHING_TO_DO: job.count("instances_not_applicable"); continue
      if t != orig: job.violation("applying a rule altered the tape it was given", **data); break
      if e == "negative": job.violation("negative count", **data); break
      r = ref_at(tab, e)
      if res.condition == bb.PS.INF_REPEAT:
        job.count("infinite_instances_checked")
        r.run(200_000)
        if r.halted: job.violation("rule claimed to apply forever but the machine halts", halts_after=r.steps, **data); break
        if inf_done < 3:
          inf_done += 1
          back = recurs(tm_str, cfg, orig, state, 3000 if cfg["opts"].get("recursive") else 2 * loops + 200)
          if back is True: job.count("infinite_recurrence_confirmed")
          elif back is False: job.violation("rule claimed to apply forever but the plain simulation stops", **data); break
          elif cfg["opts"].get("recursive"): job.count("infinite_recurrence_not_seen")
          else: job.violation("rule claimed to apply forever but its shape does not come back", **data); break
        job.nontrivial((tm_str, repr(orig), str(state), "inf"))
        continue
      f = flatten(res.new_tape, state, 4 * cells)
      if f is None: job.count("results_too_big"); continue
      if f == "negative": job.violation("rule produced a negative count", result=repr(res.new_tape), **data); break
      n = res.num_base_steps
      if n is not None: n = evalnum(n)
      left, right, st, d, ok = f
      if not d and not left: left = [0]
      counted = n is not None and sim.options.compute_steps
      if counted:
        if not isinstance(n, int): job.count("steps_too_big"); continue
        if n > budget: job.count("steps_too_big"); continue
        if n <= 0: job.violation("rule takes no steps", steps=n, **data); break
        r.run(n)
        if r.halted: job.violation("machine halts inside the rule", halts_after=r.steps, steps=n, **data); break
        diff = r.same(left, right, d, st)
        if diff: job.violation("rule result differs from execution", steps=n, result=repr(res.new_tape), diff=diff, **data); break
        job.count("applications_checked")
        if res.states_last_seen:
          job.count("last_seen_checked")
          want = {i: x for i, x in enumerate(r.last_seen()) if x >= 0}
          got = {int(a): evalnum(b) for a, b in res.states_last_seen.items()}
          if check_seen and got != want:
            job.violation("last-seen data of the rule differ", want=want, got=got, steps=n, **data); break
      else:
        if not r.match(left, right, d, st, budget):
          if r.halted: job.violation("machine halts before reaching the rule's result", result=repr(res.new_tape), **data); break
          job.count("stepless_not_reached"); continue
        job.count("stepless_applications_checked")
      job.nontrivial((tm_str, repr(orig), str(state)))
