"""C20: the C++ enumerators, recurrence detector and lazy-beaver search against the reference executor and an independent tree walk."""
import traceback, collections, gzip, os, random, re, shutil, subprocess, sys, tempfile
import vcheck_lib as V, ref, cppbuild as C
from vcheck_lib import Ctx, job_limit

def free(tab): return sum(c is None or c[2] < 0 for r in tab for c in r)
def children(tab, s, k):
  """Tree-normal-form children at the cell reached."""
  ns, nk = len(tab), len(tab[0]); cells = [c for r in tab for c in r if c is not None]
  ms = max([0] + [c[2] for c in cells]); mk = max([0] + [c[0] for c in cells]); out = []
  for q in range(min(ms + 1, ns - 1) + 1):
    for w in range(min(mk + 1, nk - 1) + 1):
      for d in (1, 0):
        if d == 0 and not cells: continue      # the very first move is to the right
        t = [list(r) for r in tab]; t[s][k] = (w, d, q); out.append(t)
  return out

def recurrent(tab, start, period, offset, check_min=True):
  """Is the configuration at `start` repeated `period` steps later, shifted by `offset`? (a proof that the machine runs forever)"""
  r = ref.Ref(tab).run(start)
  if r.halted: return False
  st, pos, lo, n = r.state, r.pos, r.lo, r.len; init = r.cells(lo, n); get = lambda p: init[p - lo] if lo <= p < lo + n else 0
  mn = mx = pos
  for i in range(period):
    r.run(start + i + 1)
    if r.halted: return False
    mn, mx = min(mn, r.pos), max(mx, r.pos)
  if r.state != st or r.pos - pos != offset: return False
  lo2, n2 = r.lo, r.len; fin = r.cells(lo2, n2); get2 = lambda p: fin[p - lo2] if lo2 <= p < lo2 + n2 else 0
  L, R = min(lo, lo2) - abs(offset) - 2, max(lo + n, lo2 + n2) + abs(offset) + 2
  a, b = (mn, R) if offset > 0 else (L, mx) if offset < 0 else (mn, mx)
  return all(get(p) == get2(p + offset) for p in range(a, b + 1))

def find_lr(tab, upto):
  """Some (start, period, offset) with start a power of two <= upto and period <= start, or None."""
  s = 1
  while s <= upto:
    r = ref.Ref(tab).run(s)
    if r.halted: return None
    st, pos = r.state, r.pos
    for p in range(1, s + 1):
      r.run(s + p)
      if r.halted: return None
      if r.state == st and recurrent(tab, s, p, r.pos - pos): return s, p, r.pos - pos
    s *= 2
  return None

def partial(rng, holes):
  ns, nk = rng.choice(((2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (5, 2), (2, 4), (6, 2), (2, 5), (4, 3)))
  tab = [[None] * nk for _ in range(ns)]; tab[0][0] = (1, 1, 1)
  while free(tab) > holes:
    r = ref.Ref(tab).run(300)
    if not r.halted: break
    tab = rng.choice(children(tab, r.from_state, r.from_symbol))
  return tab

def read(d, name, gz): return (gzip.open(f"{d}/{name}.gz", "rt").read() if gz else open(f"{d}/{name}").read()).splitlines()
def stats(out): return [int(x) for x in re.findall(r"(?:Total|Halt|Infinite|Unknown|Max Period): (\d+)", out.splitlines()[-1])] if out.strip() else []

def verify(job, rng, roots, steps, no_halt, H, I, U, st, what, sample=1.0):
  """The three lists against the machines' behaviour and the tree."""
  d = dict(run=what, max_steps=steps, allow_no_halt=no_halt); kind = {}
  for n, L in (("halt", H), ("inf", I), ("unknown", U)):
    for l in L:
      tm = l.split(" | ")[0].strip(); job.count("machines_listed")
      if tm in kind: job.violation("machine listed twice", tm=tm, first=kind[tm][0], again=n, **d); return
      kind[tm] = (n, l)
  seen = set(); todo = [t for t in roots]; bad = 0
  while todo:
    t = todo.pop(); s = ref.fmt(t)
    if s in seen: job.violation("the tree has a machine twice", tm=s, **d); return     # cannot happen with distinct roots
    seen.add(s)
    if s not in kind: job.violation("machine of the class is missing", tm=s, **d); return
    n, l = kind[s]
    r = ref.Ref(t).run(4 * steps + 4); job.count("tree_nodes")
    if n == "halt":
      m = re.search(r"\| Halt (\d+)", l)
      if not r.halted or not m or int(m[1]) != r.steps: job.violation("wrong halting result", line=l, halted=r.halted, steps=r.steps, **d); return
      if free(t) > 1 or no_halt: todo += children(t, r.from_state, r.from_symbol)
      continue
    if r.halted and r.steps <= steps: job.violation("halting machine not listed as halting", line=l, listed=n, steps=r.steps, **d); return
    if rng.random() > sample: continue
    if n == "inf":
      m = re.search(r"\| Lin_Recur (\d+) (-?\d+) <(\d+)", l); job.count("recurrences"); job.nontrivial((s, l))
      if not m or not recurrent(t, int(m[3]), int(m[1]), int(m[2])): job.violation("claimed recurrence is not one", line=l, **d); return
    else:
      job.count("unknowns")
      f = find_lr(t, steps // 4)
      if f: job.violation("recurrent machine not recognised although far within the limit", line=l, start_period_offset=f, **d); return
  if seen != set(kind): job.violation("listed machine is not in the class", tm=sorted(set(kind) - seen)[:3], **d); return
  per = [int(l.split("Lin_Recur ")[1].split()[0]) for l in I]
  w = [len(kind), len(H), len(I), len(U)] + ([max(per + [0])])
  job.count("runs_verified")
  if st and st[:5] != w: job.violation("wrong totals", want=w, got=st, **d)

def lr_run(job, d, exe, pre, steps, no_halt, gz, only, tag, post=()):
  """-> (halt, inf, unknown, stats) or None"""
  r = C.run(job, exe, *pre, steps, f"h{tag}", f"i{tag}", f"u{tag}", *post, "true" if no_halt else "false", *(["true" if gz else "false", "true" if only else "false"] if gz or only else []), cwd=d)
  if r is None: return None
  if r.returncode: job.violation("enumeration failed", cmd=str(pre), rc=r.returncode, err=r.stderr.decode()[-500:]); return None
  return tuple(read(d, x + tag, gz) for x in ("h", "i", "u")) + (stats(r.stdout.decode()),)

def root(ns, nk):
  t = [[None] * nk for _ in range(ns)]; t[0][0] = (1, 1, 1); return t

def lr_class(job, seed, P, tmp, ns, nk, steps, no_halt, v):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  full = lr_run(job, d, P[v] + "/lr_enum", (ns, nk), steps, no_halt, False, False, "0")
  if full is None: return
  verify(job, rng, [root(ns, nk)], steps, no_halt, *full, f"lr_enum {ns} {nk}", sample=min(1, 3000 / max(1, len(full[1]) + len(full[2]))))
  if v != "noboost":
    z = lr_run(job, d, P[v] + "/lr_enum", (ns, nk), steps, no_halt, True, False, "z"); job.count("compressed_runs")
    if z is not None and z[:3] != full[:3]: job.violation("compressed output differs", cls=(ns, nk), max_steps=steps)
  o = lr_run(job, d, P[v] + "/lr_enum", (ns, nk), steps, no_halt, False, True, "o"); job.count("only_unknown_runs")
  if o is not None and (o[2] != full[2] or o[0] or o[1] or o[3][:4] != full[3][:4]): job.violation("only_unknown changes the undecided machines or the totals", cls=(ns, nk), max_steps=steps, sizes=[len(x) for x in o[:3]], want=len(full[2]))
  # the same in two or three stages, split at random
  cur = [[], [], None]; s = min(steps, 1 if rng.random() < .2 else rng.randint(1, max(1, steps // 2))); first = lr_run(job, d, P[v] + "/lr_enum", (ns, nk), s, no_halt, False, False, "a")
  if first is None: return
  cur = [list(first[0]), list(first[1]), list(first[2])]; stages = [s] + sorted(rng.randint(s, steps) for _ in range(rng.randrange(2))) + [steps]
  for i, s2 in enumerate(stages[1:]):
    open(d + "/todo", "w").write("".join(l + "\n" for l in cur[2])); k = rng.randint(1, 5)
    r = subprocess.run([sys.executable, C.SRC + "/scripts/shuffle_split.py", "todo", str(k)], cwd=d, capture_output=True, text=True)
    parts = [open(f"{d}/todo.part_{j}_of_{k}").read().splitlines() for j in range(k)] if r.returncode == 0 else None
    if parts is None or sorted(sum(parts, [])) != sorted(cur[2]): job.violation("splitting lost or duplicated machines", chunks=k, n=len(cur[2]), err=r.stderr[-300:]); return
    nxt = []
    for j in rng.sample(range(k), k):
      x = lr_run(job, d, P[v] + "/lr_enum_continue", (f"todo.part_{j}_of_{k}",), s2, no_halt, v != "noboost" and rng.random() < .3, False, f"c{i}_{j}", post=(j,))
      if x is None: return
      job.count("continued_pieces"); cur[0] += x[0]; cur[1] += x[1]; nxt += x[2]
      if x[3] and x[3][:4] != [len(x[0]) + len(x[1]) + len(x[2]), len(x[0]), len(x[1]), len(x[2])]: job.violation("continued run: wrong totals", got=x[3])
    cur[2] = nxt
  for n, a, b in zip(("halting", "recurrent", "undecided"), cur, full):
    if sorted(a) != sorted(b): job.violation(f"continuing in pieces gives different {n} machines", cls=(ns, nk), stages=stages, allow_no_halt=no_halt, missing=sorted(set(b) - set(a))[:3], extra=sorted(set(a) - set(b))[:3], na=len(a), nb=len(b))
  job.count("split_runs"); shutil.rmtree(d)

def subtree(job, seed, P, tmp, n, v):
  """Random partial machines of larger classes: all their completions."""
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  for _ in range(n):
    ts = {ref.fmt(t): t for t in (partial(rng, rng.randint(1, 4)) for _ in range(rng.randint(1, 2)))}
    while True:    # keep the trees small and disjoint
      big = [s for s, t in ts.items() if (2 * len(t) * len(t[0])) ** max(0, free(t) - 1) > 4000]
      if not big: break
      for s in big:
        t = ts.pop(s); r = ref.Ref(t).run(300)
        if r.halted: c = rng.choice(children(t, r.from_state, r.from_symbol)); ts[ref.fmt(c)] = c
    if not ts: continue
    roots = list(ts.values())
    if len(roots) > 1: roots = roots[:1]
    open(d + "/in", "w").write("".join(ref.fmt(t) + rng.choice(("", " note", " | x")) + "\n" for t in roots)); no_halt = free(roots[0]) <= 2 and rng.random() < .4; steps = rng.choice((2, 3, 10, 50, 127, 128, 200))
    x = lr_run(job, d, P[v] + "/lr_enum_continue", ("in",), steps, no_halt, False, False, "s", post=("0",))
    if x is not None: verify(job, rng, roots, steps, no_halt, *x, "lr_enum_continue " + ref.fmt(roots[0]), sample=min(1, 300 / max(1, len(x[1]) + len(x[2])))); job.count("subtrees")
    lb_tree(job, d, P[v], roots, steps, "in")
  shutil.rmtree(d)

def walk(roots, steps, limit=60000):
  """-> (number of machines, Counter of halting step counts, undecided machines) of the lazy-beaver tree"""
  n = 0; halts = {}; und = []; todo = list(roots)
  while todo:
    t = todo.pop(); n += 1; r = ref.Ref(t).run(steps)
    if n > limit: return None
    if r.halted and r.steps <= steps:
      halts[r.steps] = halts.get(r.steps, 0) + 1
      if free(t) > 1: todo += children(t, r.from_state, r.from_symbol)
    else: und.append(ref.fmt(t))
  return n, halts, und

def witnesses(job, text, steps, d):
  got = {}
  for l in text.splitlines():
    k, tm = l.split("\t"); k = int(k); r = ref.Ref(ref.parse(tm)).run(k + 5); job.count("witnesses")
    if k in got: job.violation("two witnesses for one step count", steps=k, **d)
    if not r.halted or r.steps != k: job.violation("witness does not run for that many steps", line=l, steps=r.steps, halted=r.halted, **d)
    got[k] = tm
  return got

def lb_stats(out): return [int(x) for x in re.findall(r"# TMs (?:simulated|halted) = (\d+)", out)]
def lb_tree(job, d, P, roots, steps, infile):
  w = walk(roots, steps)
  if w is None: return
  r = C.run(job, P + "/lb_enum_continue", infile, steps, "w", 3, cwd=d)
  if r is None: return
  x = dict(roots=[ref.fmt(t) for t in roots], max_steps=steps); got = witnesses(job, open(d + "/w").read(), steps, x); job.count("lb_trees")
  if r.returncode or set(got) != set(w[1]): job.violation("step counts found are not those of the machines", missing=sorted(set(w[1]) - set(got))[:5], extra=sorted(set(got) - set(w[1]))[:5], rc=r.returncode, **x)
  s = lb_stats(r.stdout.decode())
  if s and s != [w[0], sum(w[1].values())]: job.violation("wrong number of machines", want=[w[0], sum(w[1].values())], got=s, **x)

LB = {(2, 2): 7, (3, 2): 22, (4, 2): 72, (2, 3): 23, (2, 4): 93, (3, 3): 351}
def lb_class(job, seed, P, tmp, ns, nk, steps, v):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp); x = dict(cls=(ns, nk), max_steps=steps)
  r = C.run(job, P[v] + "/lb_enum", ns, nk, steps, "w", "n", cwd=d, timeout=800 if (ns, nk) == (3, 3) else 300)
  if r is None: return
  out = r.stdout.decode(); got = witnesses(job, open(d + "/w").read(), steps, x); m = re.search(r"LB\(\d+, \d+\) = (\d+)", out); job.count("lb_classes"); job.nontrivial(("lb", ns, nk, steps))
  miss = next(i for i in range(1, 10**9) if i not in got); true = LB.get((ns, nk))
  if r.returncode or m and int(m[1]) != miss: job.violation("printed value is not the least step count missing", out=out[-300:], miss=miss, **x)
  if true and steps > true and (not m or int(m[1]) != true): job.violation("wrong lazy beaver value", out=out[-300:], want=true, **x)
  if true and steps < true and (m or miss <= steps): job.violation("value printed although the limit is below it", out=out[-300:], want=true, **x)
  if true and any(i not in got for i in range(1, min(steps, true - 1) + 1)): job.violation("step count not witnessed", missing=miss, **x)
  s1 = lb_stats(out); non = open(d + "/n").read().splitlines()
  if len(set(non)) != len(non) or s1 and s1[0] - s1[1] != len(non): job.violation("undecided machines: duplicates or wrong number", n=len(non), distinct=len(set(non)), stats=s1, **x)
  if (ns, nk) in ((2, 2), (3, 2), (2, 3), (1, 2), (1, 3)):
    w = walk([[[None] * nk for _ in range(ns)]], steps)
    if w:
      job.count("lb_walks")
      if set(got) != set(w[1]) or sorted(non) != sorted(w[2]) or s1 and s1 != [w[0], sum(w[1].values())]: job.violation("not the machines of the class", want=(w[0], sum(w[1].values()), len(w[2])), got=(s1, len(non)), missing=sorted(set(w[1]) ^ set(got))[:5], **x)
  # in two stages, split, merged
  s0 = rng.randint(0, min(12, steps)); r0 = C.run(job, P[v] + "/lb_enum", ns, nk, s0, "w0", "n0", cwd=d)
  if r0 is None: return
  n0 = open(d + "/n0").read().splitlines(); k = rng.randint(1, 4); tot = lb_stats(r0.stdout.decode()); files = ["w0"]
  p = subprocess.run([sys.executable, C.SRC + "/scripts/shuffle_split.py", "n0", str(k)], cwd=d, capture_output=True, text=True)
  for j in range(k):
    rj = C.run(job, P[v] + "/lb_enum_continue", f"n0.part_{j}_of_{k}", steps, f"w1_{j}", j, cwd=d, timeout=800 if (ns, nk) == (3, 3) else 300); files.append(f"w1_{j}")
    if rj is None or rj.returncode: return
    if tot: tot = [a + b for a, b in zip(tot, lb_stats(rj.stdout.decode()))]
  p = subprocess.run([sys.executable, C.SRC + "/scripts/merge_steps_examples.py", *files], cwd=d, capture_output=True, text=True); job.count("lb_splits")
  g2 = witnesses(job, p.stdout, steps, dict(x, merged=True))
  if p.returncode or set(g2) != set(got): job.violation("split run finds other step counts", stages=(s0, steps), pieces=k, missing=sorted(set(got) - set(g2))[:5], extra=sorted(set(g2) - set(got))[:5], err=p.stderr[-300:], **x)
  holes = [i for i in range(1, max(got)) if i not in got]; m = re.search(r"Min un-attained steps:([ \d]*)", p.stderr)
  if m and [int(i) for i in m[1].split()] != holes[:20]: job.violation("merge reports wrong missing step counts", want=holes[:20], got=m[1], **x)
  if s1 and tot and [tot[0] - len(n0), tot[1]] != s1: job.violation("split run simulates other machines", want=s1, got=[tot[0] - len(n0), tot[1]], stages=(s0, steps), **x)
  shutil.rmtree(d)

def lin_recur(job, seed, P, tmp, n):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  for _ in range(n):
    k = rng.random(); tab = ref.random_tm(rng, rng.randint(1, 5), rng.randint(2, 4), .05, .05) if k < .4 else ref.tnf_tm(rng, rng.randint(2, 6), rng.choice((2, 3)), 500, halt=rng.random() < .5)[0]
    e = rng.choice((0, 1, 2, 5, 8, 10)); open(d + "/t", "w").write("1RB---_1LA---\n" + ref.fmt(tab) + "\n")
    r = C.run(job, P[rng.choice(("plain", "san"))] + "/lin_recur", "t", 2, e, cwd=d)
    if r is None: continue
    f = {a: int(b) for a, b in re.findall(r"(\w+): (-?\d+)", r.stdout.decode())}; w = ref.Ref(tab).run(4 << e); x = dict(tm=ref.fmt(tab), log2=e, got=f); job.count("detector_runs"); job.nontrivial(("lr", ref.fmt(tab), e))
    if r.returncode or not {"is_halted", "is_lin_recurrent"} <= set(f): job.violation("recurrence detector failed", rc=r.returncode, **x); continue
    if f["is_halted"]:
      if not w.halted or f["steps_run"] != w.steps or (f["last_state"], f["last_symbol"]) != (w.from_state, w.from_symbol): job.violation("wrong halting result", steps=w.steps, halted=w.halted, **x)
    elif w.halted and w.steps <= 1 << e: job.violation("halting machine not noticed", steps=w.steps, **x)
    elif f["is_lin_recurrent"]:
      job.count("recurrences")
      if not recurrent(tab, f["start_step"], f["period"], f["offset"]): job.violation("claimed recurrence is not one", **x)
    else:
      l = find_lr(tab, (1 << e) // 4)
      if l: job.violation("recurrent machine not recognised although far within the limit", found=l, **x)
  shutil.rmtree(d)

def wide(job, seed, P, tmp, n):
  """Long runs on tapes far wider than the initial allocation."""
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp); ts = {}; steps = rng.choice((3000, 9000, 20000))
  while len(ts) < n:
    t = ref.tnf_tm(rng, *rng.choice(((4, 2), (5, 2), (3, 3), (2, 4), (6, 2), (2, 5))), 300, halt=True)[0]; r = ref.Ref(t).run(2 * steps + 4)
    if not r.halted and 60 < r.len < 1500: ts[ref.fmt(t)] = t
  open(d + "/in", "w").write("".join(s + "\n" for s in ts))
  x = lr_run(job, d, P[rng.choice(("plain", "san"))] + "/lr_enum_continue", ("in",), steps, False, False, False, "s", post=("0",))
  if x is not None:
    if x[0]: job.violation("wrong halting result", line=x[0][0], max_steps=steps)
    got = collections.Counter(l.split(" | ")[0].strip() for l in x[0] + x[1] + x[2])
    if got != collections.Counter(list(ts)): job.violation("machines lost or listed twice", lost=list(set(ts) - set(got))[:3], max_steps=steps)
    for l in x[1]:
      m = re.search(r"\| Lin_Recur (\d+) (-?\d+) <(\d+)", l); s = l.split(" | ")[0].strip(); job.count("wide_recurrences"); job.nontrivial((s, l))
      if s not in ts: continue
      if not m or not recurrent(ts[s], int(m[3]), int(m[1]), int(m[2])): job.violation("claimed recurrence is not one", line=l, max_steps=steps); break
    for l in x[2]:
      job.count("wide_unknowns"); s = l.split(" | ")[0].strip()
      if s in ts and rng.random() < .1 and (f := find_lr(ts[s], 128)): job.violation("recurrent machine not recognised although far within the limit", line=l, start_period_offset=f, max_steps=steps)
  shutil.rmtree(d)

def uninit(job, seed, P, tmp):
  """Without the optional library, under valgrind."""
  d = tempfile.mkdtemp(dir=tmp); rng = random.Random(seed)
  for only in ((), ("false", "false"), ("false", "true")):
    C.run(job, P["noboost"] + "/lr_enum", 2, 2, 20, "h", "i", "u", "false", *only, cwd=d, valgrind=True)
    h = len(open(d + "/h").read()); job.count("noboost_runs")
    if bool(h) == ("true" in only): job.violation("without Boost: only_unknown has the wrong effect", opts=only, halt_bytes=h)
  C.run(job, P["noboost"] + "/lr_enum_continue", "u", 40, "h", "i", "v", 0, "false", "false", "false", cwd=d, valgrind=True)
  C.run(job, P["noboost"] + "/lb_enum", 2, 2, 9, "h", "n", cwd=d, valgrind=True); C.run(job, P["noboost"] + "/lb_enum_continue", "n", 12, "h", 1, cwd=d, valgrind=True)
  shutil.rmtree(d)

def guard(job, f, *a):
  try:
    with job_limit(800): FUNCS[f](job, *a)
  except (ValueError, IndexError, KeyError) as e: job.violation("the output of a program cannot be read: " + repr(e)[:200], job=f, tb=traceback.format_exc()[-1500:])
FUNCS = dict(lr_class=lr_class, subtree=subtree, lb_class=lb_class, lin_recur=lin_recur, uninit=uninit, wide=wide)

if __name__ == "__main__":
  ctx = Ctx("C20"); rng = ctx.rng; ref.lib(); tmp = tempfile.mkdtemp(prefix="c20_")
  try:
    P = C.build(tmp, ["plain", "san", "noboost"])
    jobs = [("lb_class", rng.random(), P, tmp, 4, 2, 100, "plain"), ("lb_class", rng.random(), P, tmp, 2, 4, 120, "plain"), ("uninit", rng.random(), P, tmp)]
    jobs += [("lr_class", rng.random(), P, tmp, 3, 2, 100, False, "plain"), ("lr_class", rng.random(), P, tmp, 2, 3, 60, False, "san")]
    if not ctx.quick: jobs = [("lb_class", rng.random(), P, tmp, 3, 3, 400, "plain"), ("lr_class", rng.random(), P, tmp, 4, 2, 120, False, "plain"), ("lr_class", rng.random(), P, tmp, 2, 4, 60, False, "plain"), ("lr_class", rng.random(), P, tmp, 3, 2, 250, True, "plain")] + jobs
    for _ in range(ctx.n(2, 12)):
      jobs += [("lr_class", rng.random(), P, tmp, 3, 2, rng.choice((1, 2, 30, 100, 250)), False, rng.choice(("plain", "san"))), ("lr_class", rng.random(), P, tmp, 2, 3, rng.choice((3, 40, 128)), False, rng.choice(("plain", "san"))),
               ("lr_class", rng.random(), P, tmp, 2, 2, rng.choice((0, 1, 2, 5, 64)), rng.random() < .5, "san"), ("lr_class", rng.random(), P, tmp, 2, 2, 100, True, "san"),
               ("lb_class", rng.random(), P, tmp, 3, 2, rng.choice((15, 22, 25, 40)), rng.choice(("plain", "san"))), ("lb_class", rng.random(), P, tmp, 2, 3, rng.choice((5, 23, 24, 50)), rng.choice(("plain", "san"))),
               ("lb_class", rng.random(), P, tmp, 2, 2, rng.choice((3, 6, 7, 8, 20)), "san"), ("lb_class", rng.random(), P, tmp, 1, rng.choice((2, 3)), 9, "san")]
    jobs += [("subtree", rng.random(), P, tmp, ctx.n(4, 8), rng.choice(("plain", "plain", "san"))) for _ in range(ctx.n(24, 240))] + [("lin_recur", rng.random(), P, tmp, ctx.n(40, 80)) for _ in range(ctx.n(16, 160))]
    jobs += [("wide", rng.random(), P, tmp, ctx.n(150, 400)) for _ in range(ctx.n(16, 96))]
    ctx.pmap(guard, jobs)
  finally: shutil.rmtree(tmp)
  ctx.assumptions += ["completeness of the recurrence detector is required with slack: a recurrence whose start is a power of two up to a quarter of the limit, with a period no longer than that, must be found", "published lazy beaver values are used for classes too large for the independent walk"]
  for k, m in (("runs_verified", 20), ("tree_nodes", 5000), ("recurrences", 2000), ("unknowns", 200), ("split_runs", 6), ("continued_pieces", 10), ("lb_classes", 6), ("lb_trees", 20), ("lb_splits", 6), ("detector_runs", 300), ("wide_recurrences", 500), ("wide_unknowns", 50), ("valgrind_runs", 6), ("subtrees", 40)): ctx.require(k, m)
  ctx.finish("tree_nodes", "every machine of the small classes and of random subtrees of larger ones, x step limits, output options, splits; non-trivial: a distinct claimed recurrence or search")
