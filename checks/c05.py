"""C05: monitor of linear-recurrence certificates and halting data."""
import random, traceback
import vcheck_lib as V, ref, bb
from vcheck_lib import Ctx, job_limit, quiet
import Lin_Recur_Detect as LR

def machine(rng):
  x = rng.random(); ns, nk = rng.choice(ref.SIZES)
  if x < 0.55: return ref.fmt(ref.tnf_tm(rng, ns, nk, 1500, halt=rng.random() < 0.4)[0])
  if x < 0.65: return ref.fmt(ref.random_tm(rng, ns, nk, p_halt=0.05))
  if x < 0.75: return rng.choice(MACH)
  return rng.choice(CORP)[0]

def check_one(job, s, tab, max_steps, find_min, dirty=False):
  info = bb.io_pb2.LinRecurFilterInfo(); st = bb.io_pb2.BBStatus()
  info.parameters.max_steps = max_steps; info.parameters.find_min_start_step = find_min
  tm = bb.IO.parse_tm(s)
  if dirty:   # left over from an earlier attempt with other limits
    info.result.success = True; info.result.start_step = 3; info.result.period = 1; info.result.offset = 1; job.count("reused_results")
  with quiet(): LR.filter(tm, info, st)
  job.count("runs")
  d = dict(tm=s, max_steps=max_steps, find_min=find_min)
  if tm.ttable_str() != s: job.violation("the machine was changed", after=tm.ttable_str(), **d)
  h = st.halt_status; res = info.result
  if res.success:
    d.update(start=res.start_step, period=res.period, offset=res.offset)
    why = ref.certify(tab, res.start_step, res.period, res.offset)
    job.count("certificates_checked"); job.count("cert_" + ("left" if res.offset < 0 else "right" if res.offset > 0 else "inplace"))
    if why: job.violation("reported recurrence is not real: " + why, **d); return
    if find_min:
      m = ref.min_start(tab, res.start_step, res.period); job.count("minimality_checked")
      if m != res.start_step: job.violation("start step is not the first", first=m, **d)
      if m > 0: job.count("minimality_nonzero")
    if not h.is_decided or h.is_halting or h.inf_reason != bb.io_pb2.INF_LIN_RECUR: job.violation("status does not say infinite by recurrence", status=str(st), **d)
    if h.HasField("halt_steps") or h.HasField("halt_score"): job.violation("infinite verdict carries halting data", status=str(st), **d)
    job.nontrivial((s, max_steps, find_min))
  elif h.is_decided:
    r = ref.run(tab, 10**7)
    job.count("halts_checked")
    if not h.is_halting: job.violation("infinite without a recurrence", status=str(st), **d); return
    if not r.halted: job.violation("reported halting but still runs", status=str(st), **d); return
    got = (bb.Halting_Lib.get_big_int(h.halt_steps), h.from_state, h.from_symbol)
    want = (r.steps, r.from_state, r.from_symbol)
    if got != want: job.violation("halting data differ", got=got, want=want, **d)
    sc = bb.Halting_Lib.get_big_int(h.halt_score)
    if sc is not None and sc != r.nonzeros(): job.violation("halting score differs", got=sc, want=r.nonzeros(), **d)
    job.nontrivial((s, max_steps, find_min))
  else: job.count("undecided")

def work(job, seed, n, limits):
  rng = random.Random(seed)
  for _ in range(n):
    s = machine(rng); tab = ref.parse(s)
    for _ in range(2):
      lim = rng.choice(limits) + rng.choice((0, 0, 1, -1)) if rng.random() < 0.8 else rng.randint(1, 64)
      try:
        with job_limit(30): check_one(job, s, tab, max(1, lim), rng.random() < 0.5, rng.random() < 0.2)
      except V.JobTimeout: job.count("runs_timed_out")
      except Exception as e: job.raised(e, tm=s, max_steps=lim)
  job.sample({"tm": s, "max_steps": lim})

def longlr(job, seed, n, lim):
  """Recurrences with a long lead-in: machines that halt late with the halt redirected."""
  rng = random.Random(seed)
  for _ in range(n):
    s, steps = rng.choice(CORP)
    tab = ref.parse(s)
    r = ref.run(tab, steps + 1)
    tab = [list(x) for x in tab]
    tab[r.from_state][r.from_symbol] = (rng.randrange(r.nk), rng.randrange(2), rng.randrange(r.ns))
    s = ref.fmt(tab)
    try:
      with job_limit(30): check_one(job, s, tab, lim, True); job.count("late_machines")
    except V.JobTimeout: job.count("runs_timed_out")
    except Exception as e: job.raised(e, tm=s, max_steps=lim)

if __name__ == "__main__":
  ctx = Ctx("C05"); rng = ctx.rng; ref.lib()
  CORP = bb.corpus(rng, 10**9, max_steps=ctx.n(3000, 200000), min_steps=20)
  MACH = [x.strip() for x in open(V.VERIF + "/corpus/machines.txt")]
  L = (2, 3, 4, 8, 16, 64, 127, 128, 256, 1000, 2000) + ctx.n((), (8192, 30000, 100000))
  ctx.pmap(work, [(rng.random(), 40, L) for _ in range(ctx.n(400, 4000))])
  ctx.pmap(longlr, [(rng.random(), 12, ctx.n(8192, 1 << 19)) for _ in range(ctx.n(240, 1500))])
  for k, m in (("certificates_checked", 1000), ("minimality_nonzero", 200), ("cert_left", 100), ("cert_right", 100), ("cert_inplace", 20), ("halts_checked", 300), ("reused_results", 1000)): ctx.require(k, m)
  ctx.finish("runs", "random, TNF, published and late-halting machines (some with the halting transition redirected) x step limits x minimisation; non-trivial: the detector reached a verdict, which was re-verified")
