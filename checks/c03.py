"""C03: rules adopted by the prover, re-instantiated and replayed on the reference executor."""
import random, traceback
import vcheck_lib as V, ref, bb, simmon, rulemon, synthrule
from vcheck_lib import Ctx, job_limit, quiet

SEEN = False  # last-visit data: decided by C09
def cfg_for_rules(rng):
  c = simmon.rand_cfg(rng); o = c["opts"]
  o.update(prover=True, max_prover_configs=100000)
  o["recursive"] = rng.random() < 0.6; o["limited_rules"] = rng.random() < 0.35
  o["exp_linear_rules"] = o["recursive"] and rng.random() < 0.4
  o["exp_meta_linear_rules"] = o["exp_linear_rules"] and rng.random() < 0.5
  o.setdefault("max_num_reps", 10)
  return c

def work(job, items, seed, loops, extra, budget):
  rng = random.Random(seed)
  for tm, cfg in items:
    for c in ([cfg] if cfg else []) + [cfg_for_rules(rng) for _ in range(extra)]:
      job.count("runs")
      try:
        with job_limit(15), quiet():
          rulemon.check(job, tm, c, rng, loops, budget=budget, check_seen=SEEN)
      except V.JobTimeout: job.count("runs_timed_out")
      except bb.ExpIntException: job.count("runs_refused_tower_compare")
      except Exception as e:
        job.raised(e, tm=tm, cfg=c)
  job.sample({"tm": tm, "cfg": str(c)})

if __name__ == "__main__":
  ctx = Ctx("C03"); rng = ctx.rng; ref.lib()
  items = [(x["tm"], x["cfg"]) for x in simmon.rule_corpus()]
  rng.shuffle(items); items = items[:ctx.n(560, 10**9)]
  mach = [x.strip() for x in open(V.VERIF + "/corpus/machines.txt")]; rng.shuffle(mach)
  items += [(m, None) for m in mach[:ctx.n(160, 10**9)]]
  for _ in range(ctx.n(160, 4000)):
    ns, nk = rng.choice(ref.SIZES); items.append((ref.fmt(ref.tnf_tm(rng, ns, nk, 400, halt=False)[0]), None))
  rng.shuffle(items)
  step = 5
  ctx.pmap(work, [(items[i:i + step], rng.random(), ctx.n(600, 3000), ctx.n(1, 4), ctx.n(1_000_000, 10_000_000)) for i in range(0, len(items), step)])
  for k, m in (("rules_adopted", 1000), ("applications_checked", 2000), ("infinite_instances_checked", 300), ("infinite_recurrence_confirmed", 100), ("stepless_applications_checked", 50)): ctx.require(k, m)
  synthrule.run(ctx, ctx.n(16, 64), ctx.n(400, 4000))
  ctx.assumptions = ["counts up to a few thousand cells; larger instances are covered by C15-C17 arithmetic only"]
  ctx.finish("instances_tried", "every configuration at which the prover adopted or applied a rule is re-instantiated with other counts (and, for limited rules, other surroundings); non-trivial: the prover applied the rule and the result was replayed step by step. Rules written down directly (count functions, minima, step polynomials) are given to the rule application and compared with exact iteration")
