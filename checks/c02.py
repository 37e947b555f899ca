"""C02: verdicts of the macro simulator (alone and in the pipeline) monitored against real runs."""
import random, traceback
import shutil, tempfile
import vcheck_lib as V, ref, bb, simmon, quicksim
from vcheck_lib import Ctx, job_limit, quiet

def opts(rng):
  return bb.options(max_loops=rng.choice((0, 5, 100, 1000, 5000)), lin_steps=rng.choice((0, 0, 0, 10, 127)), tape_limit=rng.choice((5, 50, 500)),
                    recursive=rng.random() < 0.5, limited_rules=rng.random() < 0.25, backsymbol=rng.random() < 0.6,
                    ctl=False, reverse_engineer=False, prover=rng.random() < 0.9, compute_steps=rng.random() < 0.9,
                    block_size=rng.choice((None, None, None, None, 1, 2, 3, 4, 7, rng.choice((12, 20, 40, 60)))), exp_linear_rules=rng.random() < 0.2,
                    max_block_size=rng.choice((0, 1, 4, 12)), block_mult=rng.choice((1, 1, 2, 3)), max_block_mult=rng.choice((0, 1, 2, 3)),
                    max_num_reps=rng.choice((1, 2, 10)))

def fast(job, tm, cfg, loops):
  """Run the bare simulator to a verdict."""
  sim = simmon.make_sim(tm, cfg)
  for _ in range(loops):
    sim.step()
    if sim.op_state != bb.TMm.RUNNING: break
    if _ & 31 == 0 and sim.tape.compressed_size() > 400: break
  return sim

def halting(job, seed, n, loops):
  rng = random.Random(seed)
  for _ in range(n):
    s, steps = ref.hostile_halting(rng, CORP, min_steps=rng.choice((10, 40, 150)))
    for rep in range(4):
      cfg = simmon.rand_cfg(rng); o = opts(rng)
      try:
        with job_limit(10), quiet():
          if rep < 3:
            job.count("sim_runs_halting"); sim = fast(job, s, cfg, loops)
            v = sim.op_state; inf = v == bb.TMm.INF_REPEAT
            job.count("sim_verdict_" + str(v))
            if v in (bb.TMm.HALT, bb.TMm.UNDEFINED) and sim.compute_steps and sim.step_num != steps:
              job.violation("halts at another step", tm=s, cfg=cfg, got=str(sim.step_num), want=steps)
          else:
            job.count("pipeline_runs_halting")
            if not o.max_loops: o.max_loops = 3000
            rec = bb.record(s); bb.MS.run_options(rec, o)
            h = rec.proto.status.halt_status; inf = h.is_decided and not h.is_halting
            job.count("pipeline_verdict_" + ("undecided" if not h.is_decided else "halt" if h.is_halting else "inf"))
      except V.JobTimeout: job.count("runs_timed_out"); job.sample({"timed_out": s, "cfg": str(cfg), "opts": str(o), "rep": rep}); continue
      except bb.ExpIntException: job.count("runs_refused_tower_compare"); continue
      except Exception as e:
        job.raised(e, tm=s, cfg=str(cfg), opts=str(o)); continue
      if inf: job.violation("machine that halts reported infinite", tm=s, cfg=str(cfg), opts=str(o), rep=rep, halts_at=steps)
      job.nontrivial((s, rep, str(cfg)))
  job.sample({"halting": s, "halts_at": steps, "cfg": str(cfg)})

def anymachine(job, seed, n, loops):
  """Ordinary machines: every infinite and every halting verdict is checked by running."""
  rng = random.Random(seed)
  for _ in range(n):
    x = rng.random()
    ns, nk = rng.choice(ref.SIZES)
    if x < 0.4: s = ref.fmt(ref.tnf_tm(rng, ns, nk, 500, halt=rng.random() < 0.7)[0])
    elif x < 0.55: s = ref.fmt(ref.random_tm(rng, ns, nk, p_halt=0.15))
    elif x < 0.7:  # no way to halt at all
      s = ref.fmt(ref.random_tm(rng, ns, nk, p_halt=0, p_undef=0))
    else: s = rng.choice(MACH)
    for rep in range(3):
      cfg = simmon.rand_cfg(rng); o = opts(rng)
      try:
        with job_limit(10), quiet():
          if rep < 2:
            job.count("sim_runs_any"); sim = fast(job, s, cfg, loops)
            v = sim.op_state
            inf = v == bb.TMm.INF_REPEAT; halt = v in (bb.TMm.HALT, bb.TMm.UNDEFINED)
            if inf: job.count("inf_reason_%d" % sim.inf_reason)
            if halt and (not sim.compute_steps or not isinstance(sim.step_num, int) or sim.step_num > 10**8): halt = False
          else:
            job.count("pipeline_runs_any")
            if not o.max_loops: o.max_loops = 2000
            rec = bb.record(s); bb.MS.run_options(rec, o)
            h = rec.proto.status.halt_status; inf = h.is_decided and not h.is_halting
            halt = h.is_decided and h.is_halting
            if halt:
              n_ = bb.Halting_Lib.get_big_int(h.halt_steps)
              if not n_ or not isinstance(n_, int) or n_ > 10**8: halt = False
      except V.JobTimeout: job.count("runs_timed_out"); job.sample({"timed_out": s, "cfg": str(cfg), "opts": str(o), "rep": rep}); continue
      except bb.ExpIntException: job.count("runs_refused_tower_compare"); continue
      except Exception as e:
        job.raised(e, tm=s, cfg=str(cfg), opts=str(o)); continue
      if inf or halt:
        r = ref.run(ref.parse(s), 10**8 if halt else HORIZON)
        if inf:
          job.count("infinite_verdicts_checked")
          if r.halted: job.violation("machine that halts reported infinite", tm=s, cfg=str(cfg), opts=str(o), rep=rep, halts_at=r.steps)
        if halt:
          job.count("halting_verdicts_checked")
          if not r.halted: job.violation("machine reported halting but still runs", tm=s, cfg=str(cfg), opts=str(o), rep=rep)
        job.nontrivial((s, rep, str(cfg)))

if __name__ == "__main__":
  ctx = Ctx("C02")
  CORP = bb.corpus(ctx.rng, 10**9, max_steps=3_000_000, min_steps=10)
  MACH = [x.strip() for x in open(V.VERIF + "/corpus/machines.txt")]
  HORIZON = ctx.n(300_000, 5_000_000)
  ref.lib()
  ctx.pmap(halting, [(ctx.rng.random(), 30, ctx.n(1500, 6000)) for _ in range(ctx.n(96, 1600))])
  ctx.pmap(anymachine, [(ctx.rng.random(), 25, ctx.n(500, 2000)) for _ in range(ctx.n(64, 1000))])
  tmp = tempfile.mkdtemp(prefix="c02_")
  try: ctx.pmap(quicksim.work, [(ctx.rng.random(), 5, CORP, tmp) for _ in range(ctx.n(64, 800))])
  finally: shutil.rmtree(tmp)
  ctx.require("quick_halts", 100)
  for k, m in (("sim_runs_halting", 2000), ("pipeline_runs_halting", 500), ("infinite_verdicts_checked", 500), ("halting_verdicts_checked", 200),
               ("inf_reason_1", 20), ("inf_reason_2", 50), ("inf_reason_3", 50)): ctx.require(k, m)
  ctx.assumptions = [f"an infinite verdict on a machine that does not halt within {HORIZON} steps cannot be refuted here (rule claims are also checked by C03, macro loops by C04)"]
  ctx.finish("sim_runs_halting", "machines that halt late (searched, mutated from non-halting ones by turning a late-used transition into a halt) x random simulator configurations; distinct (machine, configuration) pairs with a verdict")
