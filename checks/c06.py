"""C06: verdict monitor on the four closed-tape-language deciders."""
import inspect, random, time, traceback
import vcheck_lib as V, ref, bb, recgen
from vcheck_lib import Ctx, job_limit, quiet
import CTL_Filter

TYPES = ("CTL1", "CTL2", "CTL3", "CTL4")
FIELD = {"CTL1": "ctl_as", "CTL2": "ctl_as_b", "CTL3": "ctl_a_bs", "CTL4": "ctl_as_b_c"}

def params(rng, steps):
  k = rng.choice((1, 1, 1, 2, 2, 3, 3, 4, 5, 6))
  off = rng.randrange(k) if rng.random() < 0.4 else 0
  x = rng.random()
  cut = steps - rng.choice((1, 2, 3, 5, 8)) if x < 0.4 else rng.randint(0, steps) if x < 0.85 else rng.choice((0, 1, 2, 10, 200))
  return k, off, max(0, cut), rng.random() < 0.5

def one(job, typ, s, steps, p):
  """steps: the machine halts after so many steps (None: it is not known to halt)."""
  k, off, cut, back = p
  d = dict(tm=str(s), type=typ, block_size=k, offset=off, cutoff=cut, use_backsymbol=back, halts_at=steps)
  rec = bb.record(s if isinstance(s, str) else recgen.make(s)); s = rec.tm().ttable_str()   # tables: more states than the text format has letters
  with quiet(): res = CTL_Filter.filter(rec, typ, k, off, cut, back)
  pr = rec.proto; h = pr.status.halt_status; info = getattr(pr.filter.ctl, FIELD[typ])
  job.count("runs"); job.count("runs_" + typ)
  if rec.tm().ttable_str() != s: job.violation("the machine was changed", after=rec.tm().ttable_str(), **d)
  if bool(res) != info.result.success or bool(res) != h.is_decided: job.violation("return value, result and status disagree", returned=res, status=str(pr.status), **d)
  others = [f for t, f in FIELD.items() if t != typ and pr.filter.ctl.HasField(f)]
  if others: job.violation("another decider's result was written", others=others, **d)
  if res:
    job.count("successes_" + typ)
    if steps is not None: job.violation("a halting machine was called infinite", **d)
    if h.is_halting or h.inf_reason != bb.io_pb2.INF_CTL: job.violation("status is not infinite by CTL", status=str(pr.status), **d)
    if h.HasField("halt_steps") or h.HasField("halt_score"): job.violation("infinite verdict carries halting data", status=str(pr.status), **d)
    if (info.parameters.block_size, info.parameters.offset, info.parameters.cutoff) != (k, off, cut): job.violation("recorded parameters differ from the ones used", got=str(info.parameters), **d)
    if pr.status.quasihalt_status.is_decided: job.violation("a quasihalting verdict appeared", status=str(pr.status), **d)
    if pr.filter.HasField("simulator") or pr.filter.HasField("closed_graph") or pr.filter.HasField("backtrack"): job.violation("results of other deciders appeared", **d)
  return bool(res)

def guarded(job, typ, s, steps, p):
  try:
    with job_limit(20): return one(job, typ, s, steps, p)
  except V.JobTimeout: job.count("runs_timed_out")
  except bb.ExpIntException: job.count("refused")
  except Exception as e: job.raised(e, tm=s, type=typ, p=p)

def halting(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    s, steps = ref.hostile_halting(rng, CORP, MAXS)
    for typ in TYPES:
      for _ in range(2):
        p = params(rng, steps)
        guarded(job, typ, s, steps, p)
        job.count("halting_runs"); job.nontrivial((s, typ, p))
  job.sample({"tm": s, "halts_at": steps, "params": p})

def out_of_time(job, seed, n):
  """The deciders that take an end time: one that has passed (or passes in the middle) is no proof."""
  rng = random.Random(seed)
  class Clock:   # passes the end time after so many looks at it
    def __init__(self, at): self.at = at
    def __getattr__(self, k): return getattr(time, k)
    def time(self): self.at -= 1; return 1e9 if self.at >= 0 else 3e9
  for _ in range(n):
    s, steps = ref.hostile_halting(rng, CORP, MAXS)
    typ = rng.choice(TYPES); mod = CTL_Filter.get_module(typ); orig = mod.CTL
    if "end_time" not in inspect.signature(orig).parameters: job.count("no_end_time"); continue
    old = getattr(mod, "time", None); mod.time = Clock(rng.choice((0, 0, 1, 2, 3, 5)))
    mod.CTL = lambda *a, **k: orig(*a, **k, end_time=2e9)
    try: guarded(job, typ, s, steps, params(rng, steps))
    finally: mod.CTL = orig; mod.time = old
    job.count("out_of_time"); job.nontrivial((s, typ, "time"))

def built(job, seed, n):
  """Machines that write a word first: the cut-off falls when the word is there."""
  rng = random.Random(seed)
  for _ in range(n):
    tab, at = ref.builder_tm(rng); r = ref.run(tab, 3000, 1 << 20)
    steps = r.steps if r.halted else None
    if r.halted and r.steps <= at + 1: continue
    for typ in TYPES:
      k = rng.choice((1, 1, 1, 1, 2, 3))
      p = (k, rng.randrange(k), at + rng.choice((0, 0, 0, 1, 2, 3)), rng.random() < 0.3)
      if guarded(job, typ, ref.fmt(tab), steps, p): job.count("built_successes")
      job.count("built_halting" if r.halted else "built_running"); job.nontrivial((ref.fmt(tab), typ, p))

def placed(job, seed, n):
  """Small automata with one halting transition, started on a chosen tape at the cut-off."""
  rng = random.Random(seed)
  for _ in range(n):
    tab, at = ref.config_tm(rng); r = ref.run(tab, at + 1500, 1 << 20)
    if not r.halted and rng.random() < 0.8: continue
    steps = r.steps if r.halted else None
    if r.halted and r.steps <= at + 1: continue
    for typ in TYPES:
      k = rng.choice((1, 1, 1, 1, 2, 3))
      p = (k, rng.randrange(k), at + rng.choice((0, 0, 0, 0, 1, 2)), rng.random() < 0.3)
      if guarded(job, typ, tab, steps, p): job.count("placed_successes")
      job.count("placed_halting" if r.halted else "placed_running"); job.nontrivial((ref.fmt(tab), typ, p))

def fake_proof(job, seed, n):
  """Machines the decider proves infinite, with a transition they use after the cut-off made to halt:
  the closest thing to a proof that must now fail."""
  rng = random.Random(seed)
  for _ in range(n):
    s = rng.choice(MACH) if rng.random() < 0.4 else ref.fmt(ref.tnf_tm(rng, *rng.choice(ref.SIZES), 400, halt=False)[0])
    tab = ref.parse(s)
    r = ref.run(tab, 3000, 1 << 20)
    if r.halted: continue
    typ = rng.choice(TYPES); p = params(rng, rng.choice((10, 50, 300)))
    job.count("nonhalting_runs")
    if not guarded(job, typ, s, None, p): continue
    job.nontrivial((s, typ, p))
    tr = ref.Ref(tab, 1 << 20).trace(3000)
    nk = len(tab[0])
    for c in set(tr[min(p[2], len(tr)):]):
      first = tr.index(c)
      if first < 4: continue
      m = [list(x) for x in tab]; m[c // nk][c % nk] = (1, 1, -1)
      if rng.random() < 0.3: m[c // nk][c % nk] = None
      q = p if rng.random() < 0.5 else (p[0], p[1], max(0, first - rng.choice((0, 1, 2, 6))), p[3])
      guarded(job, typ, ref.fmt(m), first + 1, q)
      job.count("fake_proofs"); job.nontrivial((s, typ, q, c))

if __name__ == "__main__":
  ctx = Ctx("C06"); rng = ctx.rng; ref.lib()
  MAXS = ctx.n(3000, 40000)
  CORP = bb.corpus(rng, 10**9, max_steps=MAXS, min_steps=6)
  MACH = [x.strip() for x in open(V.VERIF + "/corpus/machines.txt")]
  ctx.pmap(halting, [(rng.random(), 25) for _ in range(ctx.n(120, 1600))])
  ctx.pmap(fake_proof, [(rng.random(), 60) for _ in range(ctx.n(160, 2400))])
  ctx.pmap(out_of_time, [(rng.random(), 60) for _ in range(ctx.n(24, 200))])
  ctx.pmap(built, [(rng.random(), 100) for _ in range(ctx.n(250, 6000))])
  ctx.pmap(placed, [(rng.random(), 200) for _ in range(ctx.n(200, 6000))])
  ctx.require("placed_successes", 500); ctx.require("placed_halting", 5000)
  ctx.require("built_successes", 500); ctx.require("built_halting", 2000)
  ctx.require("halting_runs", 5000); ctx.require("fake_proofs", 300)
  for t in TYPES: ctx.require("successes_" + t, 50)
  ctx.finish("runs", "late-halting machines with the cut-off set shortly before the halt, and machines proved infinite with a later-used transition made to halt, x 4 deciders x block size, offset, cut-off, back-symbol; non-trivial: halting machine or successful proof")
