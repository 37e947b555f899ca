"""C09: quasihalt verdicts against observed last visits."""
import random, traceback
import vcheck_lib as V, ref, bb, simmon, rulemon, qhmon, synthrule
from vcheck_lib import Ctx, job_limit, quiet
import Lin_Recur_Detect as LR

def machine(rng):
  x = rng.random(); ns, nk = rng.choice(ref.SIZES)
  if x < 0.5: return ref.fmt(ref.tnf_tm(rng, ns, nk, 800, halt=rng.random() < 0.3)[0])
  if x < 0.6: return ref.fmt(ref.random_tm(rng, ns, nk, p_halt=0.03, p_undef=0.02))
  if x < 0.75: return rng.choice(MACH)
  # a late-halting machine whose halt is redirected: abandons states late
  s, steps = rng.choice(CORP); tab = [list(x) for x in ref.parse(s)]
  r = ref.run(tab, steps + 1)
  tab[r.from_state][r.from_symbol] = (rng.randrange(r.nk), rng.randrange(2), r.from_state if rng.random() < 0.6 else rng.randrange(r.ns))
  return ref.fmt(tab)

def pipeline(job, s, tab, rng, truth):
  k = rng.choice((1, 1, 2, 3, 4)); back = rng.random() < 0.6
  o = bb.options(max_loops=rng.choice((300, 1000)), lin_steps=rng.choice((0, 0, 0, 64)), tape_limit=200,
                 recursive=rng.random() < 0.5, limited_rules=rng.random() < 0.25, backsymbol=back,
                 ctl=rng.random() < 0.1, reverse_engineer=rng.random() < 0.1, block_size=k, max_num_reps=rng.choice((2, 10)),
                 exp_linear_rules=rng.random() < 0.1)
  rec = bb.record(s)
  with quiet(): bb.MS.run_options(rec, o)
  st = rec.proto.status; h = st.halt_status
  if not h.is_decided: job.count("undecided"); return
  d = dict(tm=s, opts=str(o), reason=h.inf_reason)
  if h.is_halting:
    job.count("halting")
    if not st.quasihalt_status.is_decided or st.quasihalt_status.is_quasihalting: job.violation("halting machine recorded as quasihalting", **d)
    return
  job.count("infinite_reason_%d" % h.inf_reason)
  if truth is None and h.inf_reason == bb.io_pb2.INF_PROOF_SYSTEM and st.quasihalt_status.is_decided:
    cfg = {"k": k, "back": back, "offset": 0, "opts": {x: getattr(o, x) for x in ("recursive", "limited_rules", "max_num_reps", "exp_linear_rules")}}
    truth = qhmon.rule_truth(s, cfg, o.max_loops + 1)
    if truth: job.count("truth_from_rule_recurrence")
  qhmon.judge(job, d, st, truth, tab, 300_000)

def lin(job, s, tab, rng, truth, max_steps=None):
  info = bb.io_pb2.LinRecurFilterInfo(); st = bb.io_pb2.BBStatus()
  info.parameters.max_steps = max_steps or rng.choice((50, 127, 1000, 4000)); info.parameters.find_min_start_step = rng.random() < 0.3
  LR.filter(bb.IO.parse_tm(s), info, st)
  if not st.halt_status.is_decided: return
  d = dict(tm=s, opts=f"LR {info.parameters.max_steps}")
  if st.halt_status.is_halting:
    if not st.quasihalt_status.is_decided or st.quasihalt_status.is_quasihalting: job.violation("halting machine recorded as quasihalting", **d)
    return
  job.count("lin_recur_verdicts")
  qhmon.judge(job, d, st, truth, tab, 300_000)

def work(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    s = machine(rng); tab = ref.parse(s)
    job.count("machines")
    r = ref.Ref(tab, 1 << 22).run(24000)
    truth = None if r.halted else qhmon.lr_truth(tab)
    if truth: job.count("truth_from_recurrence")
    try:
      with job_limit(30):
        lin(job, s, tab, rng, truth)
        for _ in range(3): pipeline(job, s, tab, rng, truth)
    except V.JobTimeout: job.count("runs_timed_out")
    except bb.ExpIntException: job.count("runs_refused_tower_compare")
    except Exception as e: job.raised(e, tm=s)
  job.sample({"tm": s})

def late(job, items, seed):
  """States abandoned thousands of steps in: the halt of a late-halting machine is redirected, then every
  way of redirecting it that recurs soon afterwards is judged by both deciders."""
  rng = random.Random(seed)
  for s0, steps in items:
    base = ref.parse(s0); r = ref.run(base, steps + 1)
    ways = [(k, d, q) for k in range(r.nk) for d in (0, 1) for q in range(r.ns)]; rng.shuffle(ways)
    for w in ways[:3] + [None] * 3:
      tab = [list(x) for x in base]
      if w is None:   # into one or two new states of their own, which mostly run off one side
        e = rng.randint(1, 2); d = rng.randrange(2); w = (rng.randrange(r.nk), rng.randrange(2), r.ns)
        tab += [[(rng.randrange(r.nk), d if rng.random() < 0.9 else 1 - d, r.ns + rng.randrange(e)) for _ in range(r.nk)] for _ in range(e)]
      tab[r.from_state][r.from_symbol] = w; s = ref.fmt(tab)
      if ref.run(tab, steps * 3).halted: continue
      truth = qhmon.lr_truth(tab, steps * 3)
      if truth is None or len(truth[0]) == len(truth[1]): continue
      job.count("late_abandonments"); job.count("machines")
      if max(truth[1].values()) and max(v for q, v in truth[1].items() if q not in truth[0]) > 1000: job.count("abandoned_after_1000")
      try:
        with job_limit(60):
          lin(job, s, tab, rng, truth, steps * 4)
          pipeline(job, s, tab, rng, truth)
      except V.JobTimeout: job.count("runs_timed_out")
      except bb.ExpIntException: job.count("runs_refused_tower_compare")
      except Exception as e: job.raised(e, tm=s)

def rules(job, items, seed):
  rng = random.Random(seed)
  for it in items:
    try:
      with job_limit(15), quiet(): rulemon.check(job, it["tm"], it["cfg"], rng, 500, budget=1_000_000, check_seen=True)
    except V.JobTimeout: job.count("runs_timed_out")
    except bb.ExpIntException: job.count("runs_refused_tower_compare")
    except Exception as e: job.raised(e, tm=it["tm"])

if __name__ == "__main__":
  ctx = Ctx("C09"); rng = ctx.rng; ref.lib()
  CORP = bb.corpus(rng, 10**9, max_steps=5000, min_steps=15)
  MACH = [x.strip() for x in open(V.VERIF + "/corpus/machines.txt")]
  ctx.pmap(work, [(rng.random(), 25) for _ in range(ctx.n(120, 2000))])
  LATE = bb.corpus(rng, 10**9, max_steps=ctx.n(8000, 100000), min_steps=800); rng.shuffle(LATE); LATE = LATE[:ctx.n(240, 3000)]
  ctx.pmap(late, [(LATE[i:i + 5], rng.random()) for i in range(0, len(LATE), 5)])
  ctx.require("abandoned_after_1000", 30)
  R = simmon.rule_corpus(); rng.shuffle(R); R = R[:ctx.n(240, 10**9)]
  ctx.pmap(rules, [(R[i:i + 5], rng.random()) for i in range(0, len(R), 5)])
  for k, m in (("quasihalt_exact_checks", 1000), ("truly_quasihalting", 300), ("quasihalting_reported", 300), ("truth_from_rule_recurrence", 20), ("lin_recur_verdicts", 300), ("last_seen_checked", 2000),
               ("infinite_reason_1", 5), ("infinite_reason_2", 100), ("infinite_reason_3", 50)): ctx.require(k, m)
  synthrule.run(ctx, ctx.n(16, 64), ctx.n(300, 3000), seen=True)
  ctx.finish("quasihalt_exact_checks", "machines x deciders; truth from an independently certified recurrence (or recurrence of the tape shape after a proof-system verdict); non-trivial: a decided quasihalt status compared exactly")
