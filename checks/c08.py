"""C08: verdict monitor on the backtracking and reverse-engineering deciders."""
import random, traceback
import vcheck_lib as V, ref, bb
from vcheck_lib import Ctx, job_limit, quiet
import Backtracking_Filter as BT, Reverse_Engineer_Filter as RE

def few_paths(rng):
  """Tables biased so that backward reasoning has something to say: few ways into a state, one-sided symbols."""
  ns, nk = rng.choice(ref.SIZES + ((1, 2), (7, 2), (3, 4)))
  tab = ref.random_tm(rng, ns, nk, p_halt=rng.choice((0, 0.05, 0.15)), p_undef=rng.choice((0, 0.05, 0.1)))
  x = rng.random()
  if x < 0.3:  # a symbol is only written in one direction
    k, d = rng.randrange(nk), rng.randrange(2)
    tab = [[(t[0], d, t[2]) if t and t[0] == k else t for t in row] for row in tab]
  elif x < 0.6:  # a state is only entered in one direction, or only from one place
    q, d = rng.randrange(ns), rng.randrange(2); one = rng.random() < 0.5; seen = False
    for s in range(ns):
      for k in range(nk):
        t = tab[s][k]
        if t and t[2] == q:
          if one and seen: tab[s][k] = (t[0], t[1], rng.choice([x for x in range(ns) if x != q] or [-1]))
          else: tab[s][k] = (t[0], d, q)
          seen = True
  if rng.random() < 0.5:
    s, k = rng.randrange(ns), rng.randrange(nk); tab[s][k] = rng.choice(((1, 1, -1), None, (0, 0, -1)))
  return tab

def broad(rng):
  """A straight program that halts, and states nothing leads to that could have come before its halt in very many ways."""
  nk = rng.randint(2, 4); T = rng.randint(3, 9); D = rng.randint(1, min(5, T - 1)); per = rng.randint(1, 3)
  n = T + 1 + D * per + 2
  if n > 24: return None
  names = list(range(1, n)); rng.shuffle(names); chain = [0] + names[:T]; lay = [names[T + i * per:T + (i + 1) * per] for i in range(D)]; sinks = names[T + D * per:]
  tab = [[(rng.randrange(nk), rng.randrange(2), rng.choice(sinks)) for _ in range(nk)] for _ in range(n)]
  for d, q in enumerate(sinks): tab[q] = [(k, d, q) for k in range(nk)]
  tape = {}; pos = 0; out = chain[-1]
  for a, b in zip(chain, chain[1:]):
    k = tape.get(pos, 0); w, d = rng.randrange(nk), rng.randrange(2); tab[a][k] = (w, d, b); tape[pos] = w; pos += 1 if d else -1
  tab[out][tape.get(pos, 0)] = rng.choice(((1, 1, -1), None)); d = rng.randrange(2); one = rng.random() < .7; up = [out]
  for l in lay:
    for q in l: tab[q] = [(rng.randrange(nk), d if one else rng.randrange(2), rng.choice(up)) for _ in range(nk)]
    up = l
  return tab

def long_path(rng):
  """A program that uses every cell once: the way back from its halt is long and narrow."""
  ns, nk = rng.randint(4, 12), rng.randint(2, 4); tab = [[None] * nk for _ in range(ns)]; tape = {}; pos = q = 0; last = None; T = rng.randint(10, 3 * ns)
  for _ in range(40 * T):
    k = tape.get(pos, 0)
    if tab[q][k] is None:
      T -= 1; last = (q, k)
      if T < 0: break
      tab[q][k] = (rng.randrange(nk), rng.randrange(2), rng.choice([x for x in range(ns) if x != q]))
    w, d, r = tab[q][k]; tape[pos] = w; pos += 1 if d else -1; q = r
  else: return None
  free = [(a, k) for a in range(ns) for k in range(nk) if tab[a][k] is None and (a, k) != last]
  for a, k in free: tab[a][k] = (rng.randrange(nk), rng.randrange(2), rng.choice([x for x in range(ns) if x != last[0]] if a == last[0] else range(ns)))
  return tab

def run(job, s, tab, steps, rng, big=False):
  d = dict(tm=s, halts_at=steps)
  for _ in range(3):
    n, w = rng.choice((0, 1, 2, 3, 5, 8, 15, 30)), rng.choice((0, 1, 2, 5, 10, 40))
    if big: n, w = rng.choice((8, 15, 30, 60, 100)), rng.choice((100, 300, 2000))
    rec = bb.record(s)
    with quiet(): res = BT.backtrack(rec, n, w)
    job.count("backtrack_runs"); e = dict(steps=n, width=w, **d)
    h = rec.proto.status.halt_status; r = rec.proto.filter.backtrack.result
    if res not in (True, False): job.violation("backtracking gives no definite answer", got=repr(res), **e)
    if bool(res) != h.is_decided or bool(res) != r.success: job.violation("return value, result and status disagree", status=str(rec.proto.status), returned=res, **e)
    if rec.tm().ttable_str() != s: job.violation("the machine was changed", after=rec.tm().ttable_str(), **e)
    if res:
      job.count("backtrack_successes"); job.nontrivial((s, n, w))
      if r.max_steps >= 3: job.count("backtrack_successes_deep")
    if big and r.max_width > 150: job.count("wide_searches")
    if big and r.max_steps > 25: job.count("deep_searches")
    if res:
      if steps is not None: job.violation("backtracking calls a halting machine infinite", **e)
      if h.is_halting or h.inf_reason != bb.io_pb2.INF_BACKTRACK or h.HasField("halt_steps"): job.violation("status is not infinite by backtracking", status=str(rec.proto.status), **e)
  rec = bb.record(s)
  with quiet(): RE.filter(rec)
  job.count("reverse_runs"); h = rec.proto.status.halt_status
  ok = rec.proto.filter.reverse_engineer.success
  if ok != h.is_decided: job.violation("reverse engineering: result and status disagree", status=str(rec.proto.status), **d)
  if ok:
    job.count("reverse_successes"); job.nontrivial((s, "re"))
    if any(t is None or t[2] < 0 for row in tab for t in row): job.count("reverse_successes_with_halt")
    if steps is not None: job.violation("reverse engineering calls a halting machine infinite", **d)
    if h.is_halting or h.inf_reason != bb.io_pb2.INF_REVERSE_ENGINEER or h.HasField("halt_steps"): job.violation("status is not infinite by reverse engineering", status=str(rec.proto.status), **d)
  if rec.tm().ttable_str() != s: job.violation("the machine was changed", after=rec.tm().ttable_str(), **d)
  if steps is not None: job.count("halting_machines"); job.nontrivial(s)

def work(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    x = rng.random(); big = None
    if x > 0.97:
      big = broad(rng) if rng.random() < .8 else long_path(rng)
      if big and rng.random() < .15: a, k = rng.randrange(len(big)), rng.randrange(len(big[0])); big[a][k] = (rng.randrange(len(big[0])), rng.randrange(2), rng.randrange(len(big)))
    if big: tab = big
    elif x < 0.2: tab = ref.parse(ref.hostile_halting(rng, CORP, MAXS, 3)[0])
    elif x < 0.3: tab = ref.builder_tm(rng, rng.randint(2, 6), 4)[0]
    elif x < 0.4: tab = ref.tnf_tm(rng, *rng.choice(ref.SIZES), 300, halt=False)[0]
    else: tab = few_paths(rng)
    r = ref.run(tab, 3000, 1 << 18)
    if not r.halted and rng.random() < 0.5:  # turn it into a halting one
      l = ref.late_halts(tab, 3000, 1)
      if l: tab = ref.parse(rng.choice(l)[0]); r = ref.run(tab, 3001, 1 << 18)
    s = ref.fmt(tab)
    try:
      with job_limit(60): run(job, s, tab, r.steps if r.halted else None, rng, bool(big))
    except V.JobTimeout: job.count("runs_timed_out")
    except Exception as e: job.raised(e, tm=s)
  job.sample({"tm": s, "halts_at": r.steps if r.halted else None})

def exhaustive(job, part, parts):
  """Every 2-state 2-symbol machine (undefined or halting cells included) of this part."""
  cell = [(w, d, q) for w in range(2) for d in range(2) for q in (0, 1)] + [(1, 1, -1), None]
  rng = random.Random(part)
  for i in range(part, len(cell) ** 4, parts):
    c = [cell[(i // len(cell) ** j) % len(cell)] for j in range(4)]
    tab = [c[:2], c[2:]]; r = ref.run(tab, 200, 1 << 12)
    try: run(job, ref.fmt(tab), tab, r.steps if r.halted else None, rng)
    except Exception as e: job.raised(e, tm=ref.fmt(tab))
    job.count("exhaustive_2x2")

if __name__ == "__main__":
  ctx = Ctx("C08"); rng = ctx.rng; ref.lib()
  MAXS = ctx.n(3000, 40000)
  CORP = bb.corpus(rng, 10**9, max_steps=MAXS, min_steps=3)
  ctx.pmap(work, [(rng.random(), 100) for _ in range(ctx.n(240, 3000))])
  ctx.pmap(exhaustive, [(i, 64) for i in range(64)])
  for k, m in (("backtrack_successes", 1000), ("backtrack_successes_deep", 100), ("reverse_successes_with_halt", 500), ("halting_machines", 5000), ("wide_searches", 60)): ctx.require(k, m)
  ctx.finish("backtrack_runs", "random tables biased to few backward paths, late-halting and word-writing machines, all 2x2 machines, x depth and width limits; non-trivial: halting machine or success")
