"""C10: offline partition checker over enumeration outputs."""
import random, traceback
import vcheck_lib as V, ref, bb, enummon as E
from vcheck_lib import Ctx, job_limit
import Count

def blank(ns, nk, first_1rb):
  t = [[None] * nk for _ in range(ns)]
  if first_1rb: t[0][0] = (1, 1, 1)
  return t

def order(rng):
  a = []
  if rng.random() < 0.4: a.append("--breadth-first")
  if rng.random() < 0.4: a += ["--randomize", "--seed=%d" % rng.randint(1, 10**6)]
  if rng.random() < 0.3: a.append("--save-freq=%d" % rng.choice((1, 7, 100)))
  return a

def whole(job, seed, ns, nk, nh, first, budget):
  rng = random.Random(seed); args = ["--states=%d" % ns, "--symbols=%d" % nk] + E.sim_args(rng) + order(rng)
  if nh: args.append("--allow-no-halt")
  if not first: args.append("--no-first-1rb")
  with E.Dir() as D:
    recs = E.enum(D.path("o.pb"), *args)
  job.count("whole_classes")
  E.check_output(job, recs, blank(ns, nk, first), nh, first, budget, E.class_size(ns, nk, nh, first), args=args)
  if first:  # the repository's own count of the class
    c = sum(Count.count(bb.IO.parse_tm(s), nh) for s, _ in recs)
    job.count("count_tool_checked")
    if c != E.class_size(ns, nk, nh, True): job.violation("Count disagrees with the class size", got=c, want=E.class_size(ns, nk, nh, True), args=args)

def node(rng, ns, nk, left, budget):
  """A normal-form node with at most `left` undefined transitions left that is about to use one."""
  while ns * nk >= 10 or rng.random() < 0.2:  # any table with reached transitions taken out
    tab = ref.random_tm(rng, ns, nk, 0, 0); tab[0][0] = (1, 1, 1)
    c = [x for x in set(ref.Ref(tab, 1 << 20).trace(300)) if x]
    if len(c) < left: continue
    for x in rng.sample(c, left): tab[x // nk][x % nk] = None
    return tab, left
  budget = 500
  while True:
    tab = blank(ns, nk, True)
    while True:
      r = ref.run(tab, budget, 1 << 20)
      if not (r.halted and r.undefined): break
      un = sum(t is None for row in tab for t in row)
      if un <= left: return tab, un
      run = [x for row in tab for x in row if x]
      q = rng.randrange(min(ns, max(x[2] for x in run) + 2)); w = rng.randrange(min(nk, max(x[0] for x in run) + 2))
      tab[r.from_state][r.from_symbol] = (w, rng.randrange(2), q)

SUB = ((3, 2), (4, 2), (5, 2), (6, 2), (2, 3), (3, 3), (2, 4), (4, 3), (2, 5), (7, 2), (8, 2), (2, 7), (2, 8))
def subtree(job, seed, n, left, budget):
  rng = random.Random(seed)
  for _ in range(n):
    ns, nk = rng.choice(SUB); nh = rng.random() < 0.3
    k = 1
    while k < left and (2 * ns * nk) ** (k + nh) <= 700: k += 1
    t = [node(rng, ns, nk, rng.randint(1, k), budget)[0] for _ in range(rng.choice((1, 1, 2)))]
    if len(t) == 2 and t[0] == t[1]: t.pop()
    args = E.sim_args(rng) + order(rng) + (["--allow-no-halt"] if nh else [])
    if rng.random() < 0.4: args += ["--states=%d" % len(t[0]), "--symbols=%d" % len(t[0][0])]   # no effect with an input file
    with E.Dir() as D:
      p = D.path("in.txt"); open(p, "w").write("".join(ref.fmt(x) + "\n" for x in t))
      recs = E.enum(D.path("o.pb"), "--infile=" + p, *args)
    job.count("subtrees"); d = dict(args=args, start=[ref.fmt(x) for x in t])
    if len(t) == 1: E.check_output(job, recs, t[0], nh, True, budget, E.completions(t[0], nh, True), **d)
    else:
      for x in t:  # nodes are different, not nested (same number of cells): outputs split
        if any(E.bad_path(y, x, budget) is None for y in t if y != x): break
      else:
        part = [[q for q in recs if E.bad_path(ref.parse(q[0]), x, budget) is None] for x in t]
        if sum(map(len, part)) != len(recs): job.violation("output below none of the inputs", **d)
        for x, p in zip(t, part): E.check_output(job, p, x, nh, True, budget, E.completions(x, nh, True), **d)
    for s, pr in recs:
      tab = ref.parse(s); un = sum(c is None for row in tab for c in row)
      if Count.count(bb.IO.parse_tm(s), nh) != E.completions(tab, nh, True): job.violation("Count differs", out=s, nh=nh, got=Count.count(bb.IO.parse_tm(s), nh), want=E.completions(tab, nh, True))
      job.count("count_tool_checked")
  job.sample(d)

def guard(f):
  def g(job, *a):
    try:
      with job_limit(600): f(job, *a)
    except V.JobTimeout: job.count("jobs_timed_out")
    except Exception as e: job.raised(e, args=str(a))
  return g

if __name__ == "__main__":
  ctx = Ctx("C10"); rng = ctx.rng; ref.lib()
  S = lambda: rng.random()
  # (class, no-halt mode, first move fixed, step bound that decides halting: the known busy beaver values)
  W = [(2, 2, nh, f, 300) for nh in (0, 1) for f in (0, 1) for _ in range(ctx.n(4, 20))]
  W += [(3, 2, nh, 1, 300) for nh in (0, 1) for _ in range(ctx.n(1, 12))] + [(2, 3, nh, 1, 300) for nh in (0, 1) for _ in range(ctx.n(1, 12))] + [(3, 2, 0, 1, 300), (2, 3, 0, 1, 300), (3, 2, 0, 0, 300)]
  W += [(1, k, nh, 0, 300) for k in (2, 3, 4) for nh in (0, 1)]
  if not ctx.quick: W += [(3, 2, nh, 0, 300) for nh in (0, 1)] + [(2, 3, nh, 0, 300) for nh in (0, 1)] + [(4, 2, 0, 1, 300)]
  W.sort(key=lambda w: -(w[0] * w[1] * 2 + w[2] + (1 - w[3])))
  ctx.pmap(guard(whole), [(S(), *w) for w in W])
  ctx.pmap(guard(subtree), [(S(), 12, ctx.n(3, 4), 20000) for _ in range(ctx.n(60, 800))])
  for k, m in (("whole_classes", 10), ("partitions_checked", 300), ("halting", 2000), ("infinite", 2000), ("count_tool_checked", 1000)): ctx.require(k, m)
  ctx.assumptions.append("halting within the classes 2x2, 3x2, 2x3, 4x2 is decided by the known busy beaver values; in larger classes an infinite verdict is compared with 20000 reference steps")
  ctx.finish("outputs_checked", "whole small classes and random subtrees of larger classes x search order x simulator options; every output re-derived on the normal-form tree, its status re-computed, completions summed; non-trivial: decided output")
