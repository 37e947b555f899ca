"""C18: normal forms, permutations and neighbours against an independent renaming oracle and runs of both machines."""
import copy, itertools, os, random, subprocess, sys
import vcheck_lib as V, ref, bb, recgen as G
from vcheck_lib import Ctx, job_limit, quiet
import TNF, LNF, Permute, Adjacent, Zero_Reflexive

T = bb.TMm
HALT = (1, 1, -1)   # halting transitions are written in the standard way, 1RZ
def table(tm):
  out = []
  for s in range(tm.num_states):
    row = []
    for k in range(tm.num_symbols):
      t = tm.get_trans_object(k, s)
      row.append(None if t.condition == T.UNDEFINED else (int(t.symbol_out), int(t.dir_out), -1) if t.condition == T.HALT else (int(t.symbol_out), int(t.dir_out), int(t.state_out)))
    out.append(row)
  return out
def std(tab): return [[HALT if c and c[2] < 0 else c for c in row] for row in tab]
def rename(tab, so, ko, mirror):
  """new state i is old state so[i]; new symbol j is old symbol ko[j]"""
  si = {o: i for i, o in enumerate(so)}; ki = {o: i for i, o in enumerate(ko)}
  return [[None if (c := tab[s][k]) is None else HALT if c[2] < 0 else (ki[c[0]], c[1] ^ mirror, si[c[2]]) for k in ko] for s in so]

def first_use(tab, start=0, limit=2000):
  """Independent tree normal form: order of first use along the run from a blank tape.
  -> (state order, symbol order, mirror, steps needed) or None if the run ends or is too short."""
  ns, nk = len(tab), len(tab[0]); so, ko = [start], [0]; tape, pos, st = {}, 0, start
  c0 = tab[start][0]; mirror = 1 if c0 and c0[1] == 0 and c0[2] >= 0 else 0
  amb = c0 is not None and c0[2] < 0 and c0[1] == 0
  step = 0
  def done():
    a, b = list(so), list(ko)
    if len(a) >= ns - 1: a += [s for s in range(ns) if s not in a]
    if len(b) >= nk - 1: b += [k for k in range(nk) if k not in b]
    return (a, b) if len(a) == ns and len(b) == nk else None
  while not done():
    c = tab[st][tape.get(pos, 0)]
    if c is None or c[2] < 0 or step >= limit: return None
    if c[0] not in ko: ko.append(c[0])
    if c[2] not in so: so.append(c[2])
    tape[pos] = c[0]; pos += 1 if c[1] else -1; st = c[2]; step += 1
  a, b = done()
  return a, b, mirror, step, amb

def small_machine(rng):
  ns, nk = rng.choice(((1, 2), (2, 2), (2, 3), (3, 2), (3, 2), (2, 4), (4, 2), (3, 3), (5, 2), (2, 5), (4, 3), (6, 2)))
  return ref.random_tm(rng, ns, nk, rng.choice((0, 0.1, 0.3)), rng.choice((0, 0.1, 0.3)))

def run_pair(job, what, a, b, n, sa=0, **d):
  """The two machines run alike (steps, halting, score, extent)."""
  x, y = ref.Ref(std(a)), ref.Ref(std(b))
  if sa: x.set(b"\0", 0, 0, sa)
  hx, hy = x.run(n), y.run(n)
  f = lambda r: (r.steps, bool(r.halted or r.undefined), r.nonzeros(), 0 if r.halted or r.undefined else r.maxpos - r.minpos)   # a mirrored machine still halts to the right
  job.count("runs_compared")
  if f(x) != f(y): job.violation(what + ": the machines run differently", a=ref.fmt(a) if len(a) < 25 else "", b=ref.fmt(b) if len(b) < 25 else "", fa=f(x), fb=f(y), **d)

def tnf(job, rng, tab, limit):
  tm = G.make(tab); before = table(tm)
  new = TNF.to_TNF(tm, max_steps=limit); want = first_use(tab, limit=limit)
  job.count("tnf_calls"); d = dict(tm=ref.fmt(tab), max_steps=limit)
  if table(tm) != before: job.violation("to_TNF changed its argument", **d)
  if new is None:
    if want: job.violation("to_TNF gave up although the run uses everything", need=want[3], **d)
    job.count("tnf_none"); return None
  got = table(new); job.count("tnf_done"); job.nontrivial(("tnf", ref.fmt(tab)))
  w = want or first_use(tab, limit=limit + 2)
  if w is None: job.violation("to_TNF returned a machine although the run does not order it", got=ref.fmt(got), **d); return None
  exp = rename(tab, *w[:3])
  if w[4]: job.count("halts_at_once")
  elif got != exp: job.violation("wrong tree normal form", want=ref.fmt(exp), got=ref.fmt(got), **d); return None
  run_pair(job, "to_TNF", tab, got, 3000)
  again = TNF.to_TNF(new, max_steps=limit + 5); g2 = None if again is None else table(again)
  if g2 != got: job.violation("converting a normal machine changed it", once=ref.fmt(got), twice=str(g2), **d)
  return got

def lexmin(tab):
  ns, nk = len(tab), len(tab[0]); best = None
  for so in itertools.permutations(range(ns)):
    for ko in itertools.permutations(range(nk)):
      for m in (0, 1):
        s = ref.fmt(rename(tab, so, ko, m))
        if best is None or s < best: best = s
  return best

def transforms(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    wide = rng.random() < .04
    tab = small_machine(rng) if not wide else ref.random_tm(rng, *rng.choice(((7, 2), (9, 2), (12, 2), (8, 3), (2, 6), (2, 9), (3, 7), (6, 5))), rng.choice((0, 0.1, 0.3)), rng.choice((0, 0.1)))
    ns, nk = len(tab), len(tab[0])
    if wide: job.count("wide_machines")
    # -- tree normal form and its invariance
    limit = rng.choice((0, 1, 2, 5, 20, 100, 1000))
    r = tnf(job, rng, tab, limit)
    for _ in range(2):
      so = [0] + rng.sample(range(1, ns), ns - 1); ko = [0] + rng.sample(range(1, nk), nk - 1); m = rng.randrange(2)
      if m and (tab[0][0] is None or tab[0][0][2] < 0): m = 0   # no direction to go by
      other = rename(tab, so, ko, m); r2 = tnf(job, rng, other, limit); job.count("renamings")
      if r != r2 and not (tab[0][0] and tab[0][0][2] < 0): job.violation("renamed machines have different tree normal forms", a=ref.fmt(tab), b=ref.fmt(other), na=str(r), nb=str(r2), max_steps=limit)
    # -- permuting the table
    so = rng.sample(range(ns), ns); ko = rng.sample(range(nk), nk); m = rng.randrange(2); tm = G.make(tab)
    got = table(TNF.permute_table(tm, so, ko, bool(m))); job.count("permutations")
    if got != rename(tab, so, ko, m) or table(tm) != tab: job.violation("permuted table is not the renamed machine", tm=ref.fmt(tab), so=so, ko=ko, mirror=m, got=ref.fmt(got))
    # -- every start state
    ps = [table(x) for x in Permute.permute_start_state(G.make(tab), limit)]; job.count("start_states", len(ps))
    if len(ps) != ns: job.violation("permute_start_state: not one machine per state", tm=ref.fmt(tab), got=len(ps))
    seen = set()
    for s0, p in enumerate(ps):   # in some order: each start state once
      sw = list(range(ns)); sw[0], sw[s0] = s0, 0
      swapped = rename(tab, sw, range(nk), 0); w = first_use(swapped, limit=limit); exp = rename(swapped, *w[:3]) if w and not w[4] else None
      if exp is not None and p != exp or exp is None and not wide and not renaming_of(p, swapped): job.violation("permute_start_state: not the machine started in that state", tm=ref.fmt(tab), start=s0, got=ref.fmt(p), max_steps=limit)
      run_pair(job, "permute_start_state", swapped, p, 2000)
    # -- neighbours
    tm = G.make(tab); seen = {}; base = tab
    for a in Adjacent.adjacent(tm):
      x = table(a); k = str(x); seen[k] = seen.get(k, 0) + 1
    want = set()
    for s in range(ns):
      for k in range(nk):
        if tab[s][k] is None or tab[s][k][2] < 0: continue    # halting cells are left alone, as documented
        for c in itertools.product(range(nk), range(2), range(ns)):
          if c != tab[s][k]:
            t = list(tab); t[s] = tab[s][:k] + [c] + tab[s][k + 1:]; want.add(str(t))
    job.count("neighbours", len(seen))
    if set(seen) != want or any(v != 1 for v in seen.values()): job.violation("neighbours: not every machine differing in one transition exactly once", tm=ref.fmt(tab), n=len(want), got=sum(seen.values()), missing=sorted(want - set(seen))[:2], extra=sorted(set(seen) - want)[:2])
    if table(tm) != base: job.violation("listing neighbours changed the machine", tm=ref.fmt(base))
    # -- zero reflexive
    z = any(r[0] is None or r[0][2] == i for i, r in enumerate(tab)); job.count("zero_reflexive")
    if Zero_Reflexive.is_zero_reflexive(G.make(tab)) != z: job.violation("zero-reflexive test wrong", tm=ref.fmt(tab), want=z)
    # -- lexical normal form
    if ns * nk <= 8 and rng.random() < 0.5:
      tm = G.make(tab); L = LNF.brute_lnf(tm); got = table(L); want = lexmin(tab); job.count("lnf"); job.nontrivial(("lnf", ref.fmt(tab)))
      if ref.fmt(std(got)) != want: job.violation("not the lexically least renaming", tm=ref.fmt(tab), want=want, got=ref.fmt(got))
      if table(tm) != tab: job.violation("brute_lnf changed its argument", tm=ref.fmt(tab))
      # it starts in the renamed start state on the renamed blank
      bs, bk = int(L.init_state), int(L.init_symbol)
      if not any(rename(tab, so, ko, m) == std(got) for so in itertools.permutations(range(ns)) if so[bs] == 0 for ko in itertools.permutations(range(nk)) if ko[bk] == 0 for m in (0, 1)):
        job.violation("lexical normal form starts in the wrong state or on the wrong blank", tm=ref.fmt(tab), got=ref.fmt(got), start=(bs, bk))
    # -- larger machines through the run-derived renaming
    if rng.random() < 0.3:
      big = ref.tnf_tm(rng, rng.randint(4, 12), rng.choice((2, 3, 5)), 400, halt=rng.random() < 0.5) if hasattr(ref, "tnf_tm") else None
      if big:
        big = big[0] if isinstance(big, tuple) else big
        tnf(job, rng, std(big), 3000)

def renaming_of(p, tab):
  ns, nk = len(tab), len(tab[0])
  return any(p == rename(tab, so, ko, m) for so in itertools.permutations(range(ns)) for ko in itertools.permutations(range(nk)) for m in (0, 1))

def enumerated(job, args, tmp):
  """What the enumerator lists (in tree normal form by construction) is left as it is."""
  import enummon as E
  D = E.Dir()
  with D:
    for s, p in E.enum(D.path("e.pb"), *args):
      tm = bb.IO.parse_tm(s); new = TNF.to_TNF(tm, max_steps=300)
      if new is not None:
        job.count("enumerated_fixed")
        if new.ttable_str() != ref.fmt(std(ref.parse(s))): job.violation("a machine listed by the enumerator is not in tree normal form according to to_TNF", tm=s, got=new.ttable_str(), args=args)

def cli(job, seed, tmp):
  rng = random.Random(seed)
  tabs = [small_machine(rng) for _ in range(6)]; text = "".join(ref.fmt(t) + "\n" for t in tabs)
  run = lambda f, *a, inp=None: subprocess.run([sys.executable, os.path.join(V.CODE, f), *a], input=inp, capture_output=True, text=True, cwd=tmp)
  r = run("TNF.py", "--max-steps=100", inp=text); lines = r.stdout.splitlines(); job.count("cli_runs")
  if r.returncode or len(lines) != len(tabs): job.violation("TNF.py: not one line per machine", err=r.stderr[-600:], out=r.stdout[:600])
  else:
    for t, l in zip(tabs, lines):
      w = first_use(t, limit=100)
      if w and not w[4] and l != ref.fmt(rename(t, *w[:3])) or not w and first_use(t, limit=102) is None and ref.fmt(t) not in l: job.violation("TNF.py: wrong line", tm=ref.fmt(t), got=l)
  r = run("Permute.py", "--", ref.fmt(tabs[0])); job.count("cli_runs")
  if r.returncode or len(r.stdout.split()) != len(tabs[0]): job.violation("Permute.py: not one line per state", err=r.stderr[-600:], out=r.stdout[:600])

  # neighbours, in every start state; each line must be a renaming of the machine it stands for
  t = small_machine(rng)
  while len(t) * len(t[0]) > 6: t = small_machine(rng)
  ns, nk = len(t), len(t[0])
  r = run("Adjacent.py", "--tnf-max-steps=50", "--", ref.fmt(t)); lines = r.stdout.split(); job.count("cli_runs")
  near = [t] + [[[c if (s, k) == (i, j) else x for j, x in enumerate(row)] for i, row in enumerate(t)]
                for s in range(ns) for k in range(nk) if t[s][k] and t[s][k][2] >= 0
                for c in itertools.product(range(nk), range(2), range(ns)) if c != t[s][k]]
  canon = lambda x: min(ref.fmt(rename(x, so, ko, m)) for so in itertools.permutations(range(ns)) for ko in [(0,) + y for y in itertools.permutations(range(1, nk))] for m in (0, 1))
  if r.returncode or len(lines) != len(near) * ns: job.violation("Adjacent.py: not one line per neighbour and start state", tm=ref.fmt(t), want=len(near) * ns, got=len(lines), err=r.stderr[-600:])
  else:
    job.count("cli_neighbours", len(near))
    if sorted(canon(x) for x in near for _ in range(ns)) != sorted(canon(ref.parse(l)) for l in lines): job.violation("Adjacent.py: the lines are not the neighbours", tm=ref.fmt(t), out=r.stdout[:600])

def guard(job, f, *a):
  with job_limit(400): FUNCS[f](job, *a)
FUNCS = dict(transforms=transforms, enumerated=enumerated, cli=cli)

if __name__ == "__main__":
  import shutil, tempfile
  ctx = Ctx("C18"); rng = ctx.rng; ref.lib(); tmp = tempfile.mkdtemp(prefix="c18_")
  try:
    jobs = [("enumerated", a, tmp) for a in (["--states=2", "--symbols=2", "--time=0", "--max-loops=50"], ["--states=2", "--symbols=3", "--time=0", "--max-loops=50"], ["--states=3", "--symbols=2", "--time=0", "--max-loops=30"])]
    jobs += [("transforms", rng.random(), ctx.n(25, 60)) for _ in range(ctx.n(128, 1600))] + [("cli", rng.random(), tmp) for _ in range(ctx.n(8, 40))]
    ctx.pmap(guard, jobs)
  finally: shutil.rmtree(tmp)
  ctx.assumptions.append("halting transitions are standardised to 1RZ by the conversions (documented, tested): scores are compared after the same standardisation")
  for k, m in (("tnf_done", 1000), ("renamings", 1000), ("permutations", 500), ("lnf", 100), ("neighbours", 10000), ("runs_compared", 2000), ("enumerated_fixed", 500), ("cli_runs", 8)): ctx.require(k, m)
  ctx.finish("tnf_calls", "random machines up to 6x2/2x5/4x3 (12x5 for the run-derived form) x random renamings, mirror images, step limits; non-trivial: a conversion that succeeded")
