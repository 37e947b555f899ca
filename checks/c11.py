"""C11: enumerations in every order, stopped anywhere, continued and split: same final log."""
import random, traceback
import vcheck_lib as V, ref, bb, enummon as E
from vcheck_lib import Ctx, job_limit

def order(rng):
  a = []
  if rng.random() < 0.5: a.append("--breadth-first")
  if rng.random() < 0.5: a += ["--randomize", "--seed=%d" % rng.randint(1, 10**6)]
  if rng.random() < 0.3: a.append("--save-freq=%d" % rng.choice((1, 3, 50)))
  return a

def same(job, what, full, recs, **d):
  job.count("histories_compared")
  got = {}
  for s, p in recs:
    if s in got: job.violation(what + ": machine listed twice", out=s, **d)
    got[s] = E.key(p)
  job.count("records_compared", len(recs))
  if got.keys() != full.keys(): job.violation(what + ": different set of machines", lost=sorted(full.keys() - got.keys())[:5], extra=sorted(got.keys() - full.keys())[:5], n=(len(full), len(got)), **d)
  else:
    df = [s for s in full if full[s] != got[s]]
    if df: job.violation(what + ": different verdicts", tm=df[0], full=full[df[0]], got=got[df[0]], **d)

def write(path, recs):
  with bb.IO.Proto.Writer(path) as w:
    for s, p in recs: w.write_record(bb.TM_Record.TM_Record(proto=p))

def history(job, seed, kind):
  rng = random.Random(seed); nh = rng.random() < 0.4
  sim = E.sim_args(rng); D = E.Dir()
  flags = ["--allow-no-halt"] if nh else []
  with D:
    if kind == "class":
      ns, nk, f = rng.choice(CLASSES)
      if ns * nk > 4: nh = rng.random() < 0.15; flags = ["--allow-no-halt"] if nh else []
      src = ["--states=%d" % ns, "--symbols=%d" % nk] + ([] if f else ["--no-first-1rb"])
    else:  # below random nodes of a larger class
      ns, nk = rng.choice(((4, 2), (3, 3), (5, 2), (2, 4), (8, 2), (2, 8)))
      nodes = set()
      for _ in range(rng.randint(1, 3)):
        tab = ref.random_tm(rng, ns, nk, 0, 0); tab[0][0] = (1, 1, 1)
        c = [x for x in set(ref.Ref(tab, 1 << 20).trace(300)) if x]
        for x in rng.sample(c, min(len(c), rng.randint(1, 2 if nh or ns * nk > 9 else 3))): tab[x // nk][x % nk] = None
        nodes.add(ref.fmt(tab))
      p = D.path("in.txt"); open(p, "w").write("".join(x + "\n" for x in nodes)); src = ["--infile=" + p]
    base = E.enum(D.path("full.pb"), *src, *flags, *sim)
    full = {}
    for s, p in base: full[s] = E.key(p)
    if len(full) != len(base):
      if kind == "class": job.violation("machine listed twice", args=src + flags + sim)
      else: job.count("overlapping_nodes"); return
    d = dict(args=src + flags + sim, total=len(full), nodes=sorted(nodes) if kind != "class" else None)
    # 1. another order
    o = order(rng); job.count("orders")
    same(job, "another order", full, E.enum(D.path("o.pb"), *src, *flags, *sim, *o), order=o, **d)
    # 2. stopped and continued, any number of times
    n = len(full); cuts = []; cur = src; recs = None
    for i in range(rng.choice((1, 1, 2, 3, 6))):
      k = rng.choice((1, 2, 3, n // 2 or 1, n - 1 or 1, n, n + 1, rng.randint(1, n)))
      o = order(rng); cuts.append((k, o))
      recs = E.enum(D.path("c%d.pb" % i), *cur, *flags, *sim, *o, "--num-enum=%d" % k)
      if len({s for s, _ in recs}) != len(recs): job.violation("stopped run lists a machine twice", cuts=cuts, **d)
      cur = ["--infile=" + D.path("c%d.pb" % i)]; job.count("stops")
    if rng.random() < 0.5:
      same(job, "stopped and continued", full, E.enum(D.path("e.pb"), *cur, *flags, *sim, *order(rng)), cuts=cuts, **d)
    else:  # 3. the stopped output split over several continued runs, each with another order
      m = rng.randint(2, 4); parts = [[] for _ in range(m)]
      for r in recs: rng.choice(parts).append(r)
      out = []
      for i, p in enumerate(parts):
        write(D.path("p%d.pb" % i), p); job.count("splits")
        out += E.enum(D.path("q%d.pb" % i), "--infile=" + D.path("p%d.pb" % i), *flags, *sim, *order(rng))
      same(job, "stopped, split and continued", full, out, cuts=cuts, parts=[len(p) for p in parts], **d)
    job.nontrivial((tuple(src), tuple(sim), str(cuts)))
    job.sample({"args": src + flags + sim, "cuts": cuts, "total": n})

def guard(job, *a):
  try:
    with job_limit(600): history(job, *a)
  except V.JobTimeout: job.count("jobs_timed_out")
  except (Exception, SystemExit) as e: job.raised(e, args=str(a))

if __name__ == "__main__":
  ctx = Ctx("C11"); rng = ctx.rng; ref.lib()
  CLASSES = ((2, 2, 1), (2, 2, 1), (2, 2, 0), (2, 2, 0)) + ctx.n(((2, 3, 1),), ((2, 3, 1), (3, 2, 1), (3, 2, 0), (2, 3, 0)))
  ctx.pmap(guard, [(rng.random(), "class") for _ in range(ctx.n(60, 500))] + [(rng.random(), "nodes") for _ in range(ctx.n(140, 1500))])
  for k, m in (("histories_compared", 100), ("stops", 100), ("splits", 30), ("orders", 50), ("records_compared", 10000)): ctx.require(k, m)
  ctx.finish("histories_compared", "whole small classes and subtrees of larger ones x options; each enumerated once uninterrupted, then in another order, then stopped 1-6 times and continued (or split over several runs); non-trivial: a stop/continue history compared record by record")
