"""C01: lock-step monitor of the accelerated simulator against the reference executor."""
import random, sys
import shutil, tempfile
import vcheck_lib as V, ref, bb, simmon, quicksim
from vcheck_lib import Ctx, job_limit, quiet

def machines(ctx, rng, n):
  out = []
  for i in range(n):
    x = rng.random()
    ns, nk = rng.choice(((2, 2), (3, 2), (3, 2), (4, 2), (4, 2), (5, 2), (6, 2), (2, 3), (2, 3), (3, 3), (2, 4), (4, 3), (2, 5)))
    if x < 0.55: tab, _ = ref.tnf_tm(rng, ns, nk, 500, halt=rng.random() < 0.6)
    elif x < 0.7: tab = ref.random_tm(rng, ns, nk)
    else:
      s, _ = rng.choice(CORP); out.append(s); continue
    out.append(ref.fmt(tab))
  return out

def work(job, seed, n, loops, budget):
  rng = random.Random(seed)
  for s in machines(None, rng, n):
    for _ in range(2):
      cfg = simmon.rand_cfg(rng)
      job.count("runs")
      try:
        with job_limit(20), quiet():
          simmon.trace_check(job, s, cfg, loops, budget)
      except V.JobTimeout: job.count("runs_timed_out")
      except bb.ExpIntException: job.count("runs_refused_tower_compare")
      except Exception as e:
        import traceback
        job.raised(e, tm=s, cfg=cfg)
  job.sample({"tm": s, "cfg": str(cfg)})

def rulework(job, items, seed, n_extra, loops, budget):
  """Machines and configurations known to prove and use rules, plus variations of the configuration."""
  rng = random.Random(seed)
  for it in items:
    cfgs = [it["cfg"]] + [simmon.rand_cfg(rng) for _ in range(n_extra)]
    for cfg in cfgs:
      job.count("runs")
      try:
        with job_limit(20), quiet():
          simmon.trace_check(job, it["tm"], cfg, loops, budget)
      except V.JobTimeout: job.count("runs_timed_out")
      except bb.ExpIntException: job.count("runs_refused_tower_compare")
      except Exception as e:
        import traceback
        job.raised(e, tm=it["tm"], cfg=cfg)

def pipeline(job, seed, n):
  """run_options end to end on machines that halt: exact data in the record."""
  rng = random.Random(seed)
  for _ in range(n):
    s, steps = rng.choice(CORP)
    r = ref.run(ref.parse(s), 10**8)
    o = bb.options(max_loops=rng.choice((200, 2000, 10000)), lin_steps=rng.choice((0, 1, 50, 127)), tape_limit=rng.choice((50, 500)),
                   recursive=rng.random() < 0.5, limited_rules=rng.random() < 0.2, backsymbol=rng.random() < 0.7,
                   ctl=rng.random() < 0.5, reverse_engineer=rng.random() < 0.5,
                   block_size=rng.choice((None, None, None, 1, 2, 3, rng.choice((9, 20, 40)))), exp_linear_rules=rng.random() < 0.15,
                   max_block_size=rng.choice((0, 0, 4)), prover=rng.random() < 0.93,
                   compute_steps=rng.random() < 0.93)
    job.count("pipeline_runs")
    try:
      with job_limit(30), quiet():
        rec = bb.record(s); bb.MS.run_options(rec, o)
    except V.JobTimeout: job.count("runs_timed_out"); continue
    except bb.ExpIntException: job.count("runs_refused_tower_compare"); continue
    except Exception as e:
      import traceback
      job.raised(e, tm=s, opts=str(o)); continue
    h = rec.proto.status.halt_status
    if not h.is_decided: job.count("pipeline_undecided"); continue
    if not h.is_halting:
      job.violation("pipeline says infinite for a halting machine", tm=s, opts=str(o), halts_at=r.steps); continue
    job.count("pipeline_halts_checked")
    st = bb.Halting_Lib.get_big_int(h.halt_steps); sc = bb.Halting_Lib.get_big_int(h.halt_score)
    if o.compute_steps is False and st in (None, 0): job.count("pipeline_no_steps")  # 0: steps not counted
    elif st != r.steps: job.violation("recorded halt steps differ", tm=s, opts=str(o), got=str(st), want=r.steps)
    if sc is not None and sc != r.nonzeros() or sc is None and rec.proto.filter.simulator.result.HasField("halt_info"):
      job.violation("recorded score differs", tm=s, opts=str(o), got=str(sc), want=r.nonzeros())
    if (h.from_state, h.from_symbol) != (r.from_state, r.from_symbol):
      job.violation("recorded halting transition differs", tm=s, opts=str(o), got=[h.from_state, h.from_symbol], want=[r.from_state, r.from_symbol])

if __name__ == "__main__":
  ctx = Ctx("C01")
  CORP = bb.corpus(ctx.rng, 10**9, max_steps=3_000_000) + [(s, n) for s, n in ref.CHAMPIONS if n and n < 10**7]
  ref.lib()
  jobs = ctx.n(64, 640)
  ctx.pmap(work, [(ctx.rng.random(), ctx.n(14, 30), ctx.n(300, 1000), ctx.n(200_000, 3_000_000)) for _ in range(jobs)])
  rules = simmon.rule_corpus()
  ctx.rng.shuffle(rules); rules = rules[:ctx.n(480, 10**9)]
  ctx.pmap(rulework, [(rules[i:i + 6], ctx.rng.random(), ctx.n(1, 6), ctx.n(400, 1500), ctx.n(1_000_000, 20_000_000)) for i in range(0, len(rules), 6)])
  mach = [x.strip() for x in open(V.VERIF + "/corpus/machines.txt")]
  ctx.rng.shuffle(mach); mach = [{"tm": m, "cfg": simmon.rand_cfg(ctx.rng)} for m in mach[:ctx.n(320, 10**9)]]
  ctx.pmap(rulework, [(mach[i:i + 8], ctx.rng.random(), ctx.n(1, 3), ctx.n(250, 600), ctx.n(500_000, 5_000_000)) for i in range(0, len(mach), 8)])
  ctx.pmap(pipeline, [(ctx.rng.random(), ctx.n(12, 60)) for _ in range(ctx.n(32, 160))])
  tmp = tempfile.mkdtemp(prefix="c01_")
  try: ctx.pmap(quicksim.work, [(ctx.rng.random(), 5, CORP, tmp) for _ in range(ctx.n(96, 800))])
  finally: shutil.rmtree(tmp)
  ctx.require("quick_halts", 100)
  for k, m in (("macro_steps_checked", 5000), ("chain_steps_checked", 2000), ("rule_steps_checked", 300), ("halts_checked", 100), ("stepless_configs_checked", 1), ("pipeline_halts_checked", 100)): ctx.require(k, m)
  ctx.assumptions = ["configurations beyond the reference step/tape budget are not compared"]
  ctx.finish("configs_checked", "random/TNF/long-halting machines x random simulator configurations; a run is non-trivial if at least one proven rule was applied and checked")
