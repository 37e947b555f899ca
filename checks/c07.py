"""C07: verdict and containment monitor on the closed-position-set decider."""
import argparse, random, traceback
import vcheck_lib as V, ref, bb
from vcheck_lib import Ctx, job_limit, quiet
import CPS, CPS_Filter

def cert(graph):
  """The closed set as published by the decider: (left edges, right edges, configs)."""
  t = graph.savask_cert().split()
  assert t[0] == "Result"
  n = int(t[1]); l = t[2:2 + 2 * n]; m = int(t[2 + 2 * n]); r = t[3 + 2 * n:3 + 2 * n + 2 * m]
  k = int(t[3 + 2 * n + 2 * m]); c = t[4 + 2 * n + 2 * m:]
  assert len(c) == k
  pairs = lambda x: set(zip(x[::2], x[1::2]))
  return pairs(l), pairs(r), set(c)

def contained(job, tab, b, w, ce, max_exits, max_steps, **d):
  """Follow the machine; at every moment it leaves the window, the shifted window must be listed, and
  all neighbouring blocks outside it must be listed continuations."""
  le, ri, cf = ce
  r = ref.Ref(tab, 1 << 20); base = -(w - b); dirn = 1; seen = set()
  txt = lambda s: "".join(chr(48 + x) for x in s)
  for _ in range(max_exits):
    win = txt(r.cells(base, w)); st = chr(65 + r.state)
    at = r.pos - base
    name = win[:at + 1] + "<" + st + win[at + 1:] if dirn == 0 else win[:at] + st + ">" + win[at:]
    job.count("windows_checked")
    if name not in cf: return job.violation("a visited local configuration is not in the closed set", config=name, step=r.steps, **d)
    lo, hi = r.lo - 2 * b, r.lo + r.len + 2 * b
    new = name not in seen
    if (new and len(seen) < 60) or (not new and job.counts["windows_checked"] % 41 == 0):
      nl = max(0, -((r.lo - 2 * b - base) // b)); nr = max(0, (r.lo + r.len + 2 * b - base - w) // b + 1)
      full = txt(r.cells(base - nl * b, (nl + nr) * b + w))
      for side, off, n, step in ((le, nl * b, nl, -b), (ri, nl * b + w - b, nr, b)):
        es = {(full[o:o + b], full[o + step:o + step + b]) for o in range(off, off + n * step, step)}
        job.count("edges_checked", len(es))
        if not es <= side: return job.violation("neighbouring blocks are not listed continuations", side="left" if side is le else "right", edges=sorted(es - side)[:3], step=r.steps, config=name, **d)
    seen.add(name)
    while base <= r.pos < base + w:
      if r.steps >= max_steps: job.count("windows_ended"); return
      r.run(r.steps + 1)
      if r.halted: return job.violation("the machine halts", step=r.steps, **d)
    if r.pos < base: base -= b; dirn = 0
    else: base += b; dirn = 1
  job.count("windows_distinct", len(seen))

def closed(job, tab, b, w, ce, **d):
  """The published set proves the verdict only if it is closed: the blank start is in it, no listed
  window halts, and wherever it is left every listed continuation leads to a listed window again."""
  le, ri, cf = ce; nx = {0: {}, 1: {}}
  for side, es in ((0, le), (1, ri)):
    for x, y in es: nx[side].setdefault(x, set()).add(y)
  txt = lambda s: "".join(chr(48 + x) for x in s)
  name = lambda dirn, st, win: win[:b] + "<" + st + win[b:] if dirn == 0 else win[:w - b] + st + ">" + win[w - b:]
  blk = lambda win, side, i: win[i * b:i * b + b] if side == 0 else win[w - i * b - b:w - i * b]
  if name(1, "A", "0" * w) not in cf: return job.violation("the blank start is not in the closed set", **d)
  if "0" * b not in nx[0].get("0" * b, ()) or "0" * b not in nx[1].get("0" * b, ()): return job.violation("blank blocks do not continue each other in the closed set", **d)
  job.count("closures_checked"); job.count("closure_windows", len(cf))
  for k in (100, 1000, 5000):
    if len(cf) >= k: job.count(f"closures_of_{k}_windows")
  for c in cf:
    if "<" in c: i = c.index("<"); st = ord(c[i + 1]) - 65; win = c[:i] + c[i + 2:]; pos = i - 1
    else: i = c.index(">"); st = ord(c[i - 1]) - 65; win = c[:i - 1] + c[i + 1:]; pos = i - 1
    t = [ord(x) - 48 for x in win]; n = 0
    while 0 <= pos < w:
      q = tab[st][t[pos]]
      if q is None or q[2] < 0: return job.violation("a listed window halts", config=c, **d)
      t[pos] = q[0]; pos += 1 if q[1] == 1 else -1; st = q[2]; n += 1
      if n > 20000: break
    if n > 20000: job.count("closure_loops"); continue
    out = 0 if pos < 0 else 1; new = txt(t); beh = 1 - out
    nb, n2 = blk(new, beh, 0), blk(new, beh, 1)
    if nb not in nx[beh].get(n2, ()): return job.violation("a block left behind is not a listed continuation", config=c, **d)
    if not nx[beh].get(blk(win, beh, 0), set()) <= nx[beh].get(nb, set()): return job.violation("what lay behind a window is not a listed continuation of the block left there", config=c, **d)
    for f in nx[out].get(blk(win, out, 0), ()):
      z = (f + new)[:w] if out == 0 else (new + f)[b:]
      if name(out, chr(65 + st), z) not in cf: return job.violation("the successor of a listed window is not listed", config=c, successor=name(out, chr(65 + st), z), **d)

def params(rng):
  b = rng.choice((1, 1, 2, 2, 3, 4, 5)); w = 3 * b if rng.random() < 0.5 else rng.randint(2 * b, 5 * b)
  lim = [rng.choice((10**6, 10**6, 10**4, 300, 30, 1)), rng.choice((500, 500, 20, 3, 1)), rng.choice((3000, 3000, 200, 20, 1)), rng.choice((3000, 3000, 200, 20, 1))]
  if rng.random() < 0.5: lim = [10**5, 500, 2000, 2000]
  return (b, w, *lim)

def one(job, s, tab, steps, p):
  b, w = p[:2]
  tm = bb.IO.parse_tm(s); cg = bb.io_pb2.ClosedGraphFilterResult(); st = bb.io_pb2.BBStatus()
  if hash((s, p)) % 3 == 0:   # the record holds the outcome of an earlier attempt
    cg.success = True; cg.block_size = b + 1; cg.window_size = w + 7; cg.num_steps = 999; cg.num_configs = 77; cg.num_edges = 78; cg.num_iters = 79; cg.found_inf_loop = True; job.count("reused_results")
  with quiet(): g = CPS.filter(tm, *p, cg, st)
  h = st.halt_status; job.count("runs")
  d = dict(tm=s, block=b, window=w, limits=p[2:], halts_at=steps)
  if tm.ttable_str() != s: job.violation("the machine was changed", after=tm.ttable_str(), **d)
  if cg.success != h.is_decided: job.violation("result and status disagree", result=str(cg), status=str(st), **d)
  fresh = bb.io_pb2.ClosedGraphFilterResult()
  if hash((s, p)) % 3 == 0:
    with quiet(): CPS.filter(tm, *p, fresh, bb.io_pb2.BBStatus())
    if str(fresh) != str(cg): job.violation("the recorded result depends on what was recorded before", result=str(cg), fresh=str(fresh), **d)
  if (cg.block_size, cg.window_size) != (b, w): job.violation("recorded sizes differ from the ones used", result=str(cg), **d)
  if cg.success:
    job.count("successes"); job.nontrivial((s, p))
    if steps is not None: job.violation("a halting machine was called infinite", **d)
    elif h.is_halting or h.inf_reason != bb.io_pb2.INF_CLOSED_GRAPH: job.violation("status is not infinite by closed graph", status=str(st), **d)
    elif h.HasField("halt_steps") or h.HasField("halt_score") or st.quasihalt_status.is_decided: job.violation("verdict carries other data", status=str(st), **d)
    else:
      ce = cert(g); contained(job, tab, b, w, ce, EXITS, STEPS, **d)
      if w >= 2 * b and (len(ce[2]) > 60 or hash((s, p)) % 4 == 0): closed(job, tab, b, w, ce, **d)
  return cg.success

def guarded(job, *a):
  try:
    with job_limit(30): return one(job, *a)
  except V.JobTimeout: job.count("runs_timed_out")
  except Exception as e: job.raised(e, tm=a[0], p=a[3])

def work(job, seed, n):
  rng = random.Random(seed)
  for i in range(n):
    x = rng.random()
    if x < 0.25: s, steps = ref.hostile_halting(rng, CORP, 3000)
    else:
      if x < 0.45: tab = ref.builder_tm(rng, 7, 4)[0]
      elif x < 0.6: tab = ref.parse(rng.choice(MACH))
      else: tab = ref.tnf_tm(rng, *rng.choice(ref.SIZES), 400, halt=rng.random() < 0.3)[0]
      r = ref.run(tab, 20000, 1 << 20); s = ref.fmt(tab); steps = r.steps if r.halted else None
    tab = ref.parse(s)
    if steps is not None: job.count("halting_machines"); job.nontrivial(s)
    for _ in range(3):
      p = params(rng)
      if not guarded(job, s, tab, steps, p): continue
      if steps is None and rng.random() < 0.5:  # a proof that must fail: a used transition now halts
        tr = ref.Ref(tab, 1 << 20).trace(5000); nk = len(tab[0])
        for c in set(tr):
          m = [list(x) for x in tab]; m[c // nk][c % nk] = rng.choice(((1, 1, -1), None))
          guarded(job, ref.fmt(m), m, tr.index(c) + 1, p); job.count("fake_proofs")
  job.sample({"tm": s, "halts_at": steps, "params": p})

def large(job, seed, n):
  """Machines with long irregular runs, sizes and limits that need large sets."""
  rng = random.Random(seed)
  for _ in range(n):
    tab = ref.parse(rng.choice(WIDE)) if rng.random() < .7 else ref.parse(rng.choice(MACH)) if rng.random() < .5 else ref.tnf_tm(rng, *rng.choice(ref.SIZES), 2000, halt=False)[0]
    r = ref.run(tab, 20000, 1 << 20); s = ref.fmt(tab)
    if r.halted or len(set(ref.Ref(tab, 1 << 20).trace(3000)[-600:])) < 4: continue
    b = rng.randint(1, 5); w = rng.choice((2 * b, 2 * b + 1, 3 * b, 3 * b, 4 * b, 5 * b)); job.count("large_tried")
    guarded(job, s, tab, None, (b, w, 10**6, 500, 10**4, 10**4))

def search(job, seed, n):
  """The command-line search over block and window sizes, on records."""
  rng = random.Random(seed)
  for _ in range(n):
    s, steps = ref.hostile_halting(rng, CORP, 1000) if rng.random() < 0.4 else (ref.fmt(ref.tnf_tm(rng, *rng.choice(ref.SIZES), 400, halt=False)[0]), None)
    tab = ref.parse(s)
    if steps is None:
      r = ref.run(tab, 20000, 1 << 20); steps = r.steps if r.halted else None
    rec = bb.record(s)
    a = argparse.Namespace(min_block_size=rng.randint(1, 2), max_block_size=rng.randint(2, 4), max_window_size=rng.choice((None, None, 5, 8)), max_steps=20000, max_iters=100, max_configs=500, max_edges=500)
    try:
      with job_limit(60), quiet(): CPS_Filter.filter_all(rec, a)
    except V.JobTimeout: job.count("runs_timed_out"); continue
    res = rec.proto.filter.closed_graph.result; st = rec.proto.status; job.count("searches")
    d = dict(tm=s, args=vars(a), halts_at=steps, status=str(st), result=str(res))
    if res.success != st.halt_status.is_decided: job.violation("search: result and status disagree", **d)
    if res.success:
      job.count("search_successes"); job.nontrivial((s, str(a)))
      if steps is not None: job.violation("search: a halting machine was called infinite", **d); continue
      # the recorded sizes must be the proof: repeat it with them
      if not one(job, s, tab, None, (res.block_size, res.window_size, a.max_steps, a.max_iters, a.max_configs, a.max_edges)): job.violation("search: the recorded sizes do not prove it", **d)
    if rec.tm().ttable_str() != s: job.violation("the machine was changed", **d)

if __name__ == "__main__":
  ctx = Ctx("C07"); rng = ctx.rng; ref.lib()
  EXITS, STEPS = ctx.n((150, 4000), (1500, 100000))
  CORP = bb.corpus(rng, 10**9, max_steps=3000, min_steps=6)
  WIDE = open(V.VERIF + "/corpus/closed.txt").read().split()  # closed sets of 35 windows and more
  MACH = [x.strip() for x in open(V.VERIF + "/corpus/machines.txt")]
  ctx.pmap(work, [(rng.random(), 40) for _ in range(ctx.n(200, 3000))])
  ctx.pmap(large, [(rng.random(), 8) for _ in range(ctx.n(64, 800))])
  ctx.pmap(search, [(rng.random(), 10) for _ in range(ctx.n(60, 600))])
  for k, m in (("successes", 1000), ("windows_checked", 20000), ("edges_checked", 10000), ("halting_machines", 1500), ("fake_proofs", 500), ("search_successes", 50), ("closures_checked", 500), ("closure_windows", 20000)): ctx.require(k, m)
  ctx.finish("runs", "late-halting machines, machines proved infinite with a used transition made to halt, and non-halting machines x block and window sizes x limits; every window the machine really visits is looked up in the published closed set; non-trivial: halting machine or success")
