"""Offline checker of enumeration outputs."""
import math, os, random, tempfile, shutil
import vcheck_lib as V, ref, bb
from vcheck_lib import quiet
import Enumerate

def sim_args(rng):
  a = ["--time=0", "--max-loops=%d" % rng.choice((5, 20, 60, 100, 300))]
  if rng.random() < 0.3: a += ["--lin-steps=%d" % rng.choice((0, 5, 30, 300))]
  if rng.random() < 0.3: a += ["--no-ctl"]
  if rng.random() < 0.3: a += ["--no-reverse-engineer"]
  if rng.random() < 0.15: a += ["--no-sim"]
  if rng.random() < 0.3: a += ["--block-size=%d" % rng.choice((1, 2, 3))]
  if rng.random() < 0.2: a += ["--tape-limit=%d" % rng.choice((3, 8))]
  if rng.random() < 0.3: a += ["--recursive"]
  return a

class Dir:
  def __enter__(self): self.d = tempfile.mkdtemp(prefix="enum-"); return self
  def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
  def path(self, n): return os.path.join(self.d, n)

def enum(out, *args):
  with quiet(): Enumerate.main([str(a) for a in args] + ["--outfile", out, "--force"] + (["--no-output"] if sum(map(len, map(str, args))) % 2 else []))
  return read(out)

def read(path):
  with bb.IO.Reader(path) as r: return [(x.ttable_str(), x.proto) for x in r]

def key(proto):
  """The verdict part of a record."""
  h, q = proto.status.halt_status, proto.status.quasihalt_status
  g = bb.Halting_Lib.get_big_int
  return (h.is_decided, h.is_halting, str(g(h.halt_steps)), str(g(h.halt_score)), h.from_state, h.from_symbol, h.inf_reason,
          q.is_decided, q.is_quasihalting, str(g(q.quasihalt_steps)), q.quasihalt_state)

def perm(n, k):  # n!/(n-k)!
  return math.perm(n, k) if k >= 0 else 1

def completions(tab, no_halt_ok, first_1rb):
  """How many total machines of the class have this partial machine as normal form."""
  ns, nk = len(tab), len(tab[0]); N = 2 * ns * nk
  run = [t for row in tab for t in row if t and t[2] >= 0]; undef = sum(t is None for row in tab for t in row)
  halts = sum(t is not None and t[2] < 0 for row in tab for t in row)
  us, uk = 1 + max([t[2] for t in run] + [0]), 1 + max([t[0] for t in run] + [0])
  w = perm(ns - 2, us - 2) * perm(nk - 2, uk - 2) if first_1rb else perm(ns - 1, us - 1) * perm(nk - 1, uk - 1) * (2 if run else 1)
  if halts: m = N ** undef
  else: m = (undef * N ** (undef - 1) if undef else 0) + (N ** undef if no_halt_ok else 0)
  return w * m

def class_size(ns, nk, no_halt_ok, first_1rb):
  n = ns * nk; N = 2 * n
  if first_1rb: return (n - 1) * N ** (n - 2) + (N ** (n - 1) if no_halt_ok else 0)
  return n * N ** (n - 1) + (N ** n if no_halt_ok else 0)

def bad_path(tab, start, budget):
  """None if tab is a node of the normal-form tree below `start` (a partial machine), else why not."""
  ns, nk = len(tab), len(tab[0]); cur = [list(r) for r in start]
  for i in range(ns):
    for j in range(nk):
      if cur[i][j] is not None and cur[i][j] != tab[i][j]: return "a transition of the parent was changed"
  while True:
    if cur == [list(r) for r in tab]: return None
    r = ref.run(cur, budget, 1 << 22)
    if not (r.halted and r.undefined): return "defines transitions its machine never reaches"
    s, k = r.from_state, r.from_symbol; t = tab[s][k]
    if t is None: return "defines transitions beyond the first undefined one reached"
    run = [x for row in cur for x in row if x]
    if t[2] >= 0:
      ms, mk = max([x[2] for x in run] + [0]), max([x[0] for x in run if x[2] >= 0] + [0])
      if t[2] > ms + 1 or t[0] > mk + 1: return "states or symbols are not introduced in order"
      if not run and t[1] != 1: return "first move is not to the right"
    elif t != (1, 1, -1): return "halting transition is not 1RZ"
    cur[s][k] = t

def check_output(job, recs, start, no_halt_ok, first_1rb, budget, size, /, **d):
  """Uniqueness, normal form, truth of every status, total count."""
  seen = {}; total = 0
  ns, nk = len(start), len(start[0])
  for s, pr in recs:
    job.count("outputs_checked"); tab = ref.parse(s)
    if len(tab) != ns or len(tab[0]) != nk: job.violation("output has another size", out=s, **d); continue
    if s in seen: job.violation("machine listed twice", out=s, **d)
    seen[s] = 1
    why = bad_path(tab, start, budget)
    if why: job.violation("not a normal-form descendant: " + why, out=s, **d)
    total += completions(tab, no_halt_ok, first_1rb)
    r = ref.run(tab, budget, 1 << 22); h = pr.status.halt_status; g = bb.Halting_Lib.get_big_int
    if not h.is_decided:
      job.count("undecided")
      continue
    job.nontrivial((s, key(pr)))
    if h.is_halting:
      job.count("halting")
      if not r.halted: job.violation("reported halting, does not halt", out=s, **d); continue
      if r.undefined: job.violation("a halting machine has no halting transition", out=s, **d)
      st, sc = g(h.halt_steps), g(h.halt_score)
      if (st, h.from_state, h.from_symbol) != (r.steps, r.from_state, r.from_symbol) or sc not in (None, r.nonzeros()):
        job.violation("halting data differ", out=s, got=(st, sc, h.from_state, h.from_symbol), want=(r.steps, r.nonzeros(), r.from_state, r.from_symbol), **d)
    else:
      job.count("infinite")
      if r.halted: job.violation("reported infinite, but halts", out=s, steps=r.steps, undefined=r.undefined, **d)
      if h.HasField("halt_steps"): job.violation("infinite verdict carries halting data", out=s, **d)
  job.count("partitions_checked")
  if total != size: job.violation("the outputs do not partition the class", total=total, size=size, outputs=len(recs), **d)
