"""C21: work queues - exactly-once, order, termination - under scheduled message delivery and thread switching."""
import collections, importlib, io, os, random, sys, threading, zlib
import vcheck_lib as V
from vcheck_lib import Ctx, job_limit
V.repo_imports()
import Work_Queue, fakempi

def load(w):
  mods = fakempi.install(w); old = {k: sys.modules.get(k) for k in mods}; sys.modules.update(mods); sys.modules.pop("MPI_Work_Queue", None)
  try: return importlib.import_module("MPI_Work_Queue")
  finally:
    for k, v in old.items():
      if v is None: sys.modules.pop(k, None)
      else: sys.modules[k] = v
    sys.modules.pop("MPI_Work_Queue", None)

def schedule(job, seed):
  rng = random.Random(seed); n = rng.choice((2, 2, 3, 3, 4, 5, 7, 9)); shape = rng.choice(("none", "bushy", "deep", "burst", "flat", "mix"))
  w = fakempi.World(n, rng, rng.choice((.02, .2, .5, .9)), rng.choice((0, 0, .3, 1)), rng.choice((0, .5, .9)), 1_500_000, rng.choice((0, 0, .002, .02, .2)))
  M = load(w); out = io.StringIO(); total = rng.choice((1, 5, 30, 200, 800)); ids = iter(range(10**9)); pushed, popped = [], []; made = [0]; working = collections.Counter(); early = []
  def new(k):
    r = []
    for _ in range(k):
      if made[0] < total: made[0] += 1; i = next(ids); r.append(i); pushed.append(i)
    return r
  init = new({"none": 0, "flat": total}.get(shape, rng.choice((1, 1, 3, 40))))
  def kids():
    return {"none": 0, "flat": 0, "bushy": rng.randrange(4), "deep": rng.choice((1, 1, 1, 2)), "burst": rng.choice((0, 0, 0, 0, 60, 120)), "mix": rng.choice((0, 1, 2, 35))}[shape]
  ended = set(); ret = {}
  def master():
    m = M.Master(out)
    for i in init: m.push_job(i)
    ret["master"] = m.run_master(); ended.add(0)
    if len(popped) != len(pushed) or any(working.values()): early.append("master")
  def worker(r):
    q = M.MPI_Worker_Work_Queue(0, out)
    if pre[r]: push(q, pre[r])
    while True:
      x = q.pop_job()
      if x is None: break
      popped.append(x); working[r] = 1; w.switch(None, "work")
      push(q, new(kids())); working[r] = 0
    if len(popped) != len(pushed) or any(working.values()): early.append(r)
    ended.add(r)
  def push(q, ks):
    if rng.random() < .5: q.push_jobs(list(ks))
    else:
      for k in ks: q.push_job(k)
  pre = {r: new(rng.choice((1, 50))) if rng.random() < .1 else [] for r in range(1, n)}
  w.run([master] + [lambda r=r: worker(r) for r in range(1, n)])
  d = dict(seed=seed, ranks=n, shape=shape, total=total, deliver=w.p_deliver, sync=w.p_sync)
  job.count("schedules"); job.count("events", w.events); job.count("long_stalls", w.freezes); job.count("jobs_handed_out", len(popped)); job.count("pushes_to_master", w.sent[M.PUSH_JOBS] if hasattr(M, "PUSH_JOBS") else 0); job.count("size_updates", w.sent[getattr(M, "UPDATE_MAX_QUEUE_SIZE", None)])
  job.nontrivial(("sched", zlib.crc32(repr(w.log).encode())))
  for r, e in w.errors.items():
    job.count("raised"); job.raised(e, rank=r, **d)
  if w.errors: return
  if w.problem: job.violation("work queue: " + w.problem, ended=sorted(ended), left=len(pushed) - len(popped), log=w.log[-30:], **d); return
  c = collections.Counter(popped)
  if c != collections.Counter(pushed): job.violation("jobs lost or handed out twice", lost=sorted(set(pushed) - set(popped))[:5], twice=[k for k, v in c.items() if v > 1][:5], **d)
  if early: job.violation("told to stop while jobs were left", who=early[:5], **d)
  if len(ended) != n: job.violation("not every process stopped", ended=sorted(ended), **d)

def basic(job, seed, n):
  """The single-process queues against plain models."""
  rng = random.Random(seed)
  for _ in range(n):
    for cls, lifo in ((Work_Queue.Basic_LIFO_Work_Queue, True), (Work_Queue.Basic_FIFO_Work_Queue, False)):
      q, model, k, hist = cls(), [], 0, []; mx = None; many = rng.random() < .06
      for _ in range(rng.randint(1, 400 if many else 60)):
        op = rng.random(); job.count("basic_ops")
        if len(model) > 400: job.count("ops_on_long_queues")
        if op < .45:
          got = q.pop_job(); want = (model.pop() if lifo else model.pop(0)) if model else None; hist.append("pop")
          if got != want: job.violation("queue order", queue=cls.__name__, hist=hist[-200:], want=want, got=got); break
        elif op < .75: q.push_job(k); model.append(k); hist.append(k); k += 1
        else: ks = [k + i for i in range(rng.choice((0, 1, 3, 40, 300)) if many else rng.randrange(5))]; q.push_jobs(rng.choice((list, tuple, iter))(ks)); model += ks; hist.append(ks); k += len(ks)
        if lifo and rng.random() < .1 and hasattr(q, "get_stats"): q.get_stats(); q.print_stats()
      rest = []
      while (x := q.pop_job()) is not None: rest.append(x)
      if rest != (model[::-1] if lifo else model): job.violation("queue order at the end", queue=cls.__name__, hist=hist[-200:], want=model[:500], got=rest[:500])
      if q.pop_job() is not None: job.violation("empty queue hands out a job", queue=cls.__name__)

def many(job, f, seed, n):
  rng = random.Random(seed)
  with job_limit(600):
    if f == "basic": basic(job, seed, n)
    else:
      for _ in range(n): schedule(job, rng.randrange(1 << 60))

if __name__ == "__main__":
  ctx = Ctx("C21"); rng = ctx.rng
  jobs = [("schedule", rng.random(), ctx.n(30, 40)) for _ in range(ctx.n(64, 1000))] + [("basic", rng.random(), ctx.n(60, 200)) for _ in range(16)]
  ctx.pmap(many, jobs)
  ctx.assumptions += ["the message layer is a stand-in: per-pair order is kept, everything else is scheduled at random; sends may wait for their receiver; virtual time", "no end in sight means 1.5 million communication calls for at most 800 jobs"]
  for k, m in (("schedules", 500), ("long_stalls", 1000), ("events", 100000), ("jobs_handed_out", 20000), ("pushes_to_master", 200), ("size_updates", 500), ("basic_ops", 10000), ("ops_on_long_queues", 1000)): ctx.require(k, m)
  ctx.finish("schedules", "2..9 processes x job trees (none, flat, bushy, deep, bursts over the limits) x delivery delay, synchronous sends, switching; non-trivial: a distinct sequence of communication events")
