"""C23: the record tools, run as their command lines, conserve the records."""
import collections, contextlib, io, os, random, re, runpy, shutil, sys, tempfile, zipfile
import vcheck_lib as V, ref, bb, recgen as G, exptruth as X
from vcheck_lib import Ctx, job_limit
import Exp_Int as EI
pb = bb.io_pb2; H = bb.Halting_Lib

def cli(script, *args):
  """The tool's own main program; -> (stdout, exception or None)"""
  out = io.StringIO(); old = sys.argv; sys.argv = [script] + [str(a) for a in args]; err = None
  try:
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
      try: runpy.run_path(os.path.join(V.CODE, script), run_name="__main__")
      except SystemExit as e: err = None if e.code in (0, None) else e
      except Exception as e: err = e
  finally: sys.argv = old
  return out.getvalue(), err

def ser(r): return r.proto.SerializeToString(deterministic=True)
def read(p):
  with bb.IO.Reader(p) as r: return list(r)
def write(p, recs):
  with bb.IO.Proto.Writer(p) as w:
    for r in recs: w.write_record(r)

def machine(rng, text=True):
  while True:
    tab = G.rand_machine(rng)
    if not text or len(tab) < 25 and len(tab[0]) < 10: return tab

def gen(rng, n, text=True, dup=0.1):
  recs = []
  for _ in range(n):
    if recs and rng.random() < dup: recs.append(bb.TM_Record.TM_Record(proto=pb.TMRecord.FromString(ser(rng.choice(recs) if rng.random() < .6 else recs[-1])))); continue
    tab = machine(rng, text); rec = bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(G.make(tab), allow_no_halt=rng.random() < 0.3))
    if rng.random() < 0.5: G.fill(rng, rec.proto, rng.choice((0.05, 0.3)), {})
    if rng.random() < 0.1:    # other stored forms of the machine
      s = rec.ttable_str()
      if s and all(t is None or t[2] >= 0 or (t[0], t[1]) == (1, 1) for row in tab for t in row): rec.proto.tm.ttable_str = s
    rec.kind, rec.facts = G.status(rng, rec.proto)
    recs.append(rec)
  for r in recs:
    if not hasattr(r, "kind"):
      o = next(x for x in recs if hasattr(x, "kind") and ser(x) == ser(r)); r.kind, r.facts = o.kind, dict(o.facts)
  return recs

def number(s): return int(s.replace("_", ""))
def fname(rng, stem): return stem + rng.choice((".pb", ".pb", ".pb.gz"))

class Tmp:
  def __init__(self, rng): self.rng = rng
  def __enter__(self): self.d = tempfile.mkdtemp(prefix="c23-"); return self
  def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
  def p(self, n): return os.path.join(self.d, n)

def failed(job, tool, err, **d):
  """A tool that stops with an error it means to give (tower numbers it cannot compare) is no loss."""
  if err is None: return False
  if isinstance(err, bb.ExpIntException): job.count("refused_tower_compare")
  else: job.violation(f"{tool} failed: {err!r}"[:300], **d)
  return True

def same_seq(job, tool, got, want, **d):
  job.count("records_traced", len(want))
  if len(got) != len(want): job.violation(f"{tool}: {len(got)} records out of {len(want)}", **d); return False
  for i, (g, w) in enumerate(zip(got, want)):
    if ser(g) != ser(w): job.violation(f"{tool}: record {i} was altered", got=str(g.proto)[:300], want=str(w.proto)[:300], **d); return False
  return True

def multiset(job, tool, got, want, **d):
  job.count("records_traced", len(want))
  a, b = collections.Counter(map(ser, got)), collections.Counter(map(ser, want))
  if a != b: job.violation(f"{tool}: records lost, duplicated or altered", lost=sum((b - a).values()), extra=sum((a - b).values()), n=len(want), **d); return False
  return True

def table(tm): return [[(t.condition == bb.TMm.UNDEFINED, t.symbol_out, t.dir_out, t.state_out) if t.condition != bb.TMm.UNDEFINED else None for t in row] for row in tm.trans_table]

def convert(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    recs = gen(rng, rng.choice((0, 1, 2, 10, 40))); a = T.p(fname(rng, "a")); write(a, recs)
    b = T.p(fname(rng, "b")); out, e = cli("IO_Convert.py", a, b); job.count("tool_runs"); job.count("convert")
    if not failed(job, "IO_Convert pb->pb", e):
      same_seq(job, "IO_Convert pb->pb", read(b), recs)
      m = re.search(r"([\d_]+) records", out)
      if not m or number(m[1]) != len(recs): job.violation("IO_Convert: wrong count", out=out[-200:], want=len(recs))
    t = T.p(rng.choice(("t.txt", "t.txt.gz", "t"))); out, e = cli("IO_Convert.py", a, t); job.count("tool_runs")
    if not failed(job, "IO_Convert pb->text", e):
      import gzip
      lines = (gzip.open(t, "rt") if t.endswith("gz") else open(t)).read().splitlines()
      if len(lines) != len(recs): job.violation("IO_Convert pb->text: number of lines", got=len(lines), want=len(recs))
      for l, r in zip(lines, recs):
        w = l.split(" "); job.count("text_lines")
        if w[0] != r.ttable_str(): job.violation("IO_Convert pb->text: another machine", got=l[:200], want=r.ttable_str())
        if (w[1:2] == ["Halt"]) != r.kind.startswith("halt"): job.violation("IO_Convert pb->text: halting not shown right", got=l[:200], kind=r.kind)
        for i, k in ((2, "steps"), (3, "score")):
          if k in r.facts and isinstance(r.facts[k][0], int) and r.facts[k][0] < 10**10 and (len(w) <= i or w[i] != str(r.facts[k][0])): job.violation(f"IO_Convert pb->text: wrong {k}", got=l[:200], want=r.facts[k][0])
      c = T.p("c.pb"); out, e = cli("IO_Convert.py", t, c); job.count("tool_runs")
      if not failed(job, "IO_Convert text->pb", e):
        back = read(c)
        if [table(x.tm()) for x in back] != [table(bb.IO.parse_tm(r.ttable_str())) for r in recs]: job.violation("IO_Convert text->pb: machines lost or altered", got=len(back), want=len(recs))
        if any(x.proto.status.halt_status.is_decided and x.proto.status.halt_status.is_halting != r.kind.startswith("halt") for x, r in zip(back, recs)): job.violation("IO_Convert text->pb: invented verdict")
    # Old text: readable categories for every kind of record.
    small = [r for r in recs if len(r.tm().trans_table) <= 25 and len(r.tm().trans_table[0]) <= 10]
    for r in small:
      if r.kind == "unknown":
        ui = r.proto.filter.simulator.result; ui.ClearField("unknown_info"); ui.ClearField("halt_info"); ui.ClearField("infinite_info")
        k = rng.choice((None, "over_loops", "over_tape", "over_time", "over_steps_in_macro", "threw_exception"))
        if k == "threw_exception": ui.unknown_info.threw_exception = True
        elif k: getattr(ui.unknown_info, k).SetInParent()
    a2, o = T.p("a2.pb"), T.p("o.old"); write(a2, small); out, e = cli("IO_Convert.py", a2, o, *(() if rng.random() < 0.5 else ("--outformat", "text_old"))); job.count("tool_runs")
    if not failed(job, "IO_Convert pb->old text", e):
      lines = open(o).read().splitlines()
      if len(lines) != len(small): job.violation("IO_Convert pb->old text: number of lines", got=len(lines), want=len(small))
      for l, r in zip(lines, small):
        job.count("text_lines"); cat = l.split("|")[1].split() if "|" in l else []
        want = "Halt" if r.kind.startswith("halt") else "Infinite" if r.kind.startswith("inf") else "Unknown"
        if want not in cat[:2]: job.violation("IO_Convert pb->old text: wrong category", got=l[:200], want=want)
        elif r.kind == "halt":
          w = cat[cat.index("Halt") + 1:]
          for i, k in ((0, "score"), (1, "steps")):
            v = r.facts[k][0]
            if isinstance(v, int) and v < 10**20 and (len(w) != 2 or w[i] != str(v)): job.violation(f"IO_Convert pb->old text: wrong {k}", got=l[:200], want=v)
    job.nontrivial((seed, [r.kind for r in recs]))

def convert_bbc(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    recs = []
    for _ in range(rng.choice((0, 1, 30))):
      tab = [[None if rng.random() < 0.1 else (1, rng.randrange(2), -1) if rng.random() < 0.1 else (rng.randrange(2), rng.randrange(2), rng.randrange(5)) for _ in range(2)] for _ in range(5)]
      rec = bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(G.make(tab), allow_no_halt=False)); rec.tab = tab; recs.append(rec)
    d, b = T.p("x.db.zip"), T.p("b.pb")
    with zipfile.ZipFile(d, "w") as z: z.writestr("db", bytes(30) + b"".join(bytes((0, 0, 0) if t is None else (t[0], 1 - t[1], t[2] + 1)) for r in recs for row in r.tab for t in row))
    _, e = cli("IO_Convert.py", d, b); job.count("tool_runs"); job.count("convert")
    if failed(job, "IO_Convert bbc->pb", e): return
    if [table(r.tm()) for r in read(b)] != [table(r.tm()) for r in recs]: job.violation("IO_Convert through a BBC database: machines lost or altered", n=len(recs))
    job.count("records_traced", len(recs))
    if recs:   # an index file picks records
      n = len(recs); pick = [rng.randrange(n) for _ in range(rng.randint(0, 8))]
      ix = T.p("i.index"); open(ix, "wb").write(b"".join(i.to_bytes(4, "big") for i in pick)); c = T.p("c.pb")
      _, e = cli("IO_Convert.py", ix, c, "--bbc-seed-db", d); job.count("tool_runs")
      if not failed(job, "IO_Convert bbc index->pb", e) and [table(r.tm()) for r in read(c)] != [table(recs[i].tm()) for i in pick]: job.violation("IO_Convert of a BBC index: other machines", pick=pick)
      ix = T.p("i.index.txt"); open(ix, "w").write("".join(f"{i}\n" for i in pick))
      _, e = cli("IO_Convert.py", ix, c, "--bbc-seed-db", d); job.count("tool_runs")
      if not failed(job, "IO_Convert bbc text index->pb", e) and [table(r.tm()) for r in read(c)] != [table(recs[i].tm()) for i in pick]: job.violation("IO_Convert of a BBC text index: other machines", pick=pick)
      full = [r for r in recs if all(t for row in r.tab for t in row)] or recs[:0]   # undefined rows have no Morphett form
      if not full: return
      recs = full
      m = T.p("m.morphett"); one = T.p("one.pb"); write(one, recs[:1]); _, e = cli("IO_Convert.py", one, m); _, e2 = cli("IO_Convert.py", m, c); job.count("tool_runs", 2)
      if not (failed(job, "IO_Convert pb->morphett", e) or failed(job, "IO_Convert morphett->pb", e2)) and [table(r.tm()) for r in read(c)] != [table(recs[0].tm())]: job.violation("IO_Convert through Morphett: machine altered", tm=recs[0].ttable_str())

def sort(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    recs = gen(rng, rng.choice((0, 1, 2, 10, 60, 200)), text=False); a, b = T.p(fname(rng, "a")), T.p(fname(rng, "b")); write(a, recs)
    towers = rng.random() < 0.5
    if not towers:   # plain numbers with many ties
      for r in recs:
        if r.kind == "halt": v = rng.choice((0, 1, 5, 5, 2**63, 2**64, rng.getrandbits(80))); H.set_big_int(r.proto.status.halt_status.halt_score, v); r.facts["score"] = (v, X.I(v))
      write(a, recs)
    out, e = cli("IO_Sort.py", a, b); job.count("tool_runs"); job.count("sort")
    if failed(job, "IO_Sort", e): return
    got = read(b)
    if not multiset(job, "IO_Sort", got, recs): return
    val = {}
    for r in recs: val[ser(r)] = r.facts["score"] if r.kind == "halt" else (0, X.I(0))
    seq = [val[ser(g)] for g in got]
    for (v, x), (w, y) in zip(seq, seq[1:]):
      ex, ey = x.exact(), y.exact()
      if ex is not None and ey is not None:
        job.count("orders_checked")
        if ex < ey: job.violation("IO_Sort: not in order of score", first=str(ex)[:50], then=str(ey)[:50])
    m = re.search(r"Read ([\d_]+) records", out)
    if m and number(m[1]) != len(recs): job.violation("IO_Sort: wrong count", out=out[:200], want=len(recs))
    job.nontrivial((seed, [r.kind for r in recs]))

def value_of(t):
  v, n = t; x = n.exact()
  return x if x is not None else (None if v.sign == 0 else v.sign * float("inf"))

def categorize(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    files, recs = [], []
    for i in range(rng.randint(0, 3)):
      part = gen(rng, rng.choice((0, 1, 5, 40)), text=False); f = T.p(fname(rng, f"in{i}")); recs += part; files.append(f)
      for r in part:   # around the boundary between small and large
        if r.kind == "halt" and rng.random() < 0.5: v = rng.choice((0, 1, 998, 999, 1000, 1001, 10**6)); H.set_big_int(r.proto.status.halt_status.halt_steps, v); r.facts["steps"] = (v, X.I(v))
        if r.kind == "inf_q" and rng.random() < 0.5: v = rng.choice((1, 998, 999, 1000, 1001)); H.set_big_int(r.proto.status.quasihalt_status.quasihalt_steps, v); r.facts["q"] = (v, X.I(v))
      write(f, part)
    d = T.p("out"); os.mkdir(d); out, e = cli("IO_Categorize.py", *files, "--out-dir", d); job.count("tool_runs"); job.count("categorize")
    if failed(job, "IO_Categorize", e): return
    def size(t): return "unk" if t is None else "small" if value_of(t) < 1000 else "large"
    def cat(r):
      if r.kind == "unknown": return "unknown"
      if r.kind.startswith("halt"): return "halt." + size(r.facts.get("steps"))
      if r.kind.startswith("inf_q"): return "qhalt." + size(r.facts.get("q"))
      return "infinite"
    want = collections.defaultdict(list)
    for r in recs: want[cat(r)].append(r)
    names = [f[:-3] for f in os.listdir(d)]
    for c in set(names) | set(want):
      p = os.path.join(d, c + ".pb"); got = read(p) if os.path.exists(p) else []; job.count("category_" + c, len(got))
      same_seq(job, "IO_Categorize " + c, got, want[c])
      m = re.search(r"([\d_]+) " + c.replace(".", "_") + " records", out)
      if not m or number(m[1]) != len(want[c]): job.violation("IO_Categorize: wrong count of " + c, out=out[-900:], want=len(want[c]))
    m = re.search(r"([\d_]+) records total", out)
    if not m or number(m[1]) != len(recs): job.violation("IO_Categorize: wrong total", out=out[-200:], want=len(recs))
    job.nontrivial((seed, [r.kind for r in recs]))

def sample(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    files, recs = [], []
    for i in range(rng.randint(1, 3)):
      part = gen(rng, rng.choice((0, 1, 5, 30)), text=False, dup=0); f = T.p(fname(rng, f"in{i}")); recs += part; files.append(f)
      for j, r in enumerate(part): r.proto.elapsed_time_us = 1000 * i + j + 1   # tell equal records apart
      write(f, part)
    n = rng.choice((0, 1, 2, 5, len(recs), len(recs) + 3, max(1, len(recs) - 1))); b = T.p(fname(rng, "b")); random.seed(rng.getrandbits(30))
    out, e = cli("IO_Sample.py", *files, "--out-file", b, "--sample-size", n); job.count("tool_runs"); job.count("sample")
    if failed(job, "IO_Sample", e): return
    got = read(b); job.count("records_traced", len(got))
    if len(got) != min(n, len(recs)): job.violation("IO_Sample: wrong sample size", got=len(got), want=min(n, len(recs)), n=n)
    a, w = collections.Counter(map(ser, got)), collections.Counter(map(ser, recs))
    if a - w: job.violation("IO_Sample: a record is repeated or altered", n=n, total=len(recs))
    m = re.search(r"Scanned ([\d_]+) total", out)
    if m and number(m[1]) != len(recs): job.violation("IO_Sample: wrong number of scanned records", out=out[:200], want=len(recs))
    job.nontrivial((seed, n, len(recs)))

def uniform(job, seed):
  """Every record has the same chance: counts over many samples (a deviation of 7 sigma is a violation)."""
  rng = random.Random(seed)
  with Tmp(rng) as T:
    N, n, R = rng.choice(((6, 2, 1200), (9, 3, 1000), (5, 4, 1000), (4, 1, 1500)))
    recs = gen(rng, N, dup=0)
    for j, r in enumerate(recs): r.proto.elapsed_time_us = j + 1
    a, b = T.p("a.pb"), T.p("b.pb"); write(a, recs); cnt = collections.Counter(); pos = collections.Counter(); random.seed(rng.getrandbits(30))
    import IO_Sample
    from pathlib import Path
    for _ in range(R):
      with contextlib.redirect_stdout(io.StringIO()): IO_Sample.sample([Path(a)], Path(b), n)
      got = [g.proto.elapsed_time_us for g in read(b)]
      for g in got: cnt[g] += 1
    job.count("uniform_samples", R)
    p = n / N; sd = (R * p * (1 - p)) ** 0.5
    for j in range(1, N + 1):
      if abs(cnt[j] - R * p) > 7 * sd: job.violation("IO_Sample: records do not have equal chances", record=j, seen=cnt[j], expected=R * p, N=N, n=n)

def counts(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    files, recs, per = [], [], []
    for i in range(rng.randint(1, 3)):
      part = gen(rng, rng.choice((0, 1, 5, 30)), text=False); f = T.p(fname(rng, f"in{i}")); recs += part; files.append(f); write(f, part); per.append(len(part))
    out, e = cli("IO_Count.py", *files); job.count("tool_runs"); job.count("count")
    if not failed(job, "IO_Count", e):
      for f, k in zip(files, per):
        l = [x for x in out.splitlines() if f in x]
        if not l or number(re.search(r": ([\d_]+)", l[0])[1]) != k: job.violation("IO_Count: wrong count of a file", out=out[:300], want=k)
      m = re.search(r"Total[^:]*: ([\d_]+)", out)
      if not m or number(m[1]) != len(recs): job.violation("IO_Count: wrong total", out=out[-200:], want=len(recs))
    out, e = cli("TM_Analyze.py", *files); job.count("tool_runs"); job.count("analyze")
    if not failed(job, "TM_Analyze", e, kinds=[r.kind for r in recs]) and recs:
      k = collections.Counter("Halt" if r.kind.startswith("halt") else "Infinite" if r.kind.startswith("inf") else "Unknown" for r in recs)
      k["Total"] = len(recs); q = sum(r.kind.startswith("inf_q") for r in recs)
      if q: k["Quasihalt"] = q
      for name, v in k.items():
        m = re.search(rf"^{name}: ([\d_]+)", out, re.M)
        if not m or number(m[1]) != v: job.violation(f"TM_Analyze: wrong number of {name}", got=m and m[0], want=v)
      for name in ("Total", "Halt", "Infinite", "Unknown"):
        m = re.search(rf"^{name}: ([\d_]+)", out, re.M)
        if m and number(m[1]) != k[name]: job.violation(f"TM_Analyze: wrong number of {name}", got=m[0], want=k[name])
      rs = collections.Counter(pb.InfReason.Name(r.proto.status.halt_status.inf_reason) for r in recs if r.kind.startswith("inf"))
      for name, v in rs.items():
        m = re.search(rf"- {name} *: +([\d_]+)", out)
        if not m or number(m[1]) != v: job.violation("TM_Analyze: wrong number of " + name, got=m and m[0], want=v)
      st = [r.facts["steps"] for r in recs if "steps" in r.facts]
      if st and all(isinstance(v, int) for v, _ in st) and 0 < max(v for v, _ in st) < 10**50:
        m = re.search(r"^Halt: .*\n  - Steps: Max .*?([\d_]+)$", out, re.M)
        if not m or number(m[1]) != max(v for v, _ in st): job.violation("TM_Analyze: wrong maximum of steps", got=m and m[0], want=max(v for v, _ in st))
    job.nontrivial((seed, [r.kind for r in recs]))

def find(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    recs = gen(rng, rng.randint(1, 30)); a = T.p(fname(rng, "a")); write(a, recs)
    names = [r.ttable_str() for r in recs]; j = rng.randrange(len(recs)); s = names[j]; first = names.index(s)
    out, e = cli("Find_Record.py", "--", s, a); job.count("tool_runs"); job.count("find")
    want = str(recs[first].proto)
    if not failed(job, "Find_Record", e, tm=s):
      if out.splitlines()[:1] != [str(first)]: job.violation("Find_Record: not found, or at another place", got=out[:80], want=first, tm=s)
      elif want not in out: job.violation("Find_Record: shows another record", tm=s)
    out, e = cli("IO_Find.py", "--", s, a); job.count("tool_runs")
    if not failed(job, "IO_Find", e, tm=s) and (want not in out or "ttable: " + s not in out): job.violation("IO_Find: does not show the record", got=out[:200], tm=s)
    other = ref.fmt(ref.random_tm(rng, 4, 3, 0.1, 0.1))
    if other not in names:
      out, e = cli("IO_Find.py", "--", other, a); job.count("tool_runs")
      if not failed(job, "IO_Find", e) and "ttable:" in out: job.violation("IO_Find: found a machine that is not there", tm=other)
      out, e = cli("Find_Record.py", "--", other, a)
      if not failed(job, "Find_Record", e) and "ttable:" in out: job.violation("Find_Record: found a machine that is not there", tm=other)
    out, e = cli("Read_Record.py", a, j); job.count("tool_runs")
    if not failed(job, "Read_Record", e) and (str(recs[j].proto) not in out or "ttable: " + s not in out): job.violation("Read_Record: shows another record", j=j)
    z, nz = T.p("z.pb"), T.p("nz.pb"); out, e = cli("Zero_Reflexive.py", a, z, nz); job.count("tool_runs")
    if not failed(job, "Zero_Reflexive", e):
      def zr(r): return any(t is None or t[2] == i for i, t in enumerate(ref.parse(r.ttable_str())[k][0] for k in range(r.tm().num_states)))
      same_seq(job, "Zero_Reflexive", read(z), [r for r in recs if zr(r)]); same_seq(job, "Zero_Reflexive (not)", read(nz), [r for r in recs if not zr(r)])
    write(a, [])
    for t, *x in (("Zero_Reflexive.py", a, z, nz), ("IO_Count.py", a), ("TM_Analyze.py", a), ("IO_Find.py", "--", other, a), ("Find_Record.py", "--", other, a)):
      out, e = cli(t, *x); job.count("tool_runs"); failed(job, t + " on an empty file", e)

OWN = {"CTL": ("ctl",), "BT": ("backtrack",), "CPS": ("closed_graph",)}
def filters(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    recs = []
    for _ in range(rng.choice((0, 1, 12))):
      ns, nk = rng.choice(((2, 2), (3, 2), (2, 3))); tab, r = ref.tnf_tm(rng, ns, nk, 300, halt=rng.random() < 0.4)
      rec = bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(G.make(tab), allow_no_halt=False)); x = rng.random()
      with contextlib.redirect_stdout(io.StringIO()):
        if x < 0.7: bb.MS.run_options(rec, bb.options(max_loops=rng.choice((0, 20, 100)) or 50, lin_steps=rng.choice((0, 50, 200)), ctl=rng.random() < 0.5, reverse_engineer=rng.random() < 0.5, run_sim=rng.random() < 0.7))
      if x > 0.9:
        G.fill(rng, rec.proto.filter, 0.2, {})
        for f in ("ctl", "backtrack", "closed_graph"): rec.proto.filter.ClearField(f)
      rec.tab = tab; rec.before = pb.TMRecord.FromString(ser(rec)); recs.append(rec)
    a, b = T.p(fname(rng, "a")), T.p(fname(rng, "b")); write(a, recs)
    tool = rng.choice(("CTL", "CTL", "BT", "CPS"))
    if tool == "CTL": args = ("CTL_Filter.py", "--type", rng.choice(("CTL1", "CTL2", "CTL3", "CTL4")), "--cutoff", rng.choice((5, 50))) + rng.choice((("--block-size", rng.randint(1, 3)), ("--max-block-size", 2), ("--max-block-size", 2, "--all-offsets"), ("--block-size", 2, "--offset", 1, "--no-backsymbol")))
    elif tool == "BT": args = ("Backtracking_Filter.py", "--steps", rng.choice((1, 5, 20)))
    else: args = ("CPS_Filter.py", "--max-steps", 1000, "--max-iters", 50) + rng.choice((("--block-size", 1), ("--max-block-size", 2), ("--max-window-size", 4)))
    out, e = cli(*args, "--infile", a, "--outfile", b); job.count("tool_runs"); job.count("filter_" + tool)
    if failed(job, args[0], e, args=args): return
    got = read(b); job.count("records_traced", len(recs))
    if len(got) != len(recs): job.violation(f"{args[0]}: {len(got)} records out of {len(recs)}", args=args); return
    for g, r in zip(got, recs):
      w = r.before; gs, ws = g.proto.status, w.status; info = dict(tm=r.ttable_str(), args=args)
      if g.proto.tm.SerializeToString() != w.tm.SerializeToString() or g.ttable_str() != r.ttable_str(): job.violation(f"{args[0]}: machine altered", **info); continue
      if tool == "CPS":   # starts from a cleared record
        ok = g.proto.filter.closed_graph.result.success
        if gs.halt_status.is_decided != ok: job.violation("CPS_Filter: verdict differs from its result", **info)
        continue
      x, y = pb.TMRecord.FromString(ser(g)), pb.TMRecord.FromString(w.SerializeToString())
      ok = {"CTL": lambda: any(getattr(x.filter.ctl, f.name).result.success and getattr(x.filter.ctl, f.name) != getattr(y.filter.ctl, f.name) for f in x.filter.ctl.DESCRIPTOR.fields), "BT": lambda: x.filter.backtrack.result.success}[tool]()
      for f in OWN[tool]: x.filter.ClearField(f); y.filter.ClearField(f)
      if x.filter != y.filter: job.violation(f"{args[0]}: results of other filters altered", before=str(y.filter)[:300], after=str(x.filter)[:300], **info)
      if ws.quasihalt_status.is_decided and gs.quasihalt_status != ws.quasihalt_status: job.violation(f"{args[0]}: known quasihalting result lost", before=str(ws)[:300], after=str(gs)[:300], **info)
      if ok:
        job.count("filter_successes")
        if not gs.halt_status.is_decided or gs.halt_status.is_halting: job.violation(f"{args[0]}: success not recorded in the status", after=str(gs)[:300], **info)
        if not ws.halt_status.is_decided: job.count("filter_decided")
      elif (gs.halt_status.is_decided or ws.halt_status.is_decided) and gs.halt_status != ws.halt_status: job.violation(f"{args[0]}: status altered without success", before=str(ws)[:300], after=str(gs)[:300], **info)
      job.nontrivial((r.ttable_str(), args[0], ok, ws.halt_status.is_decided))

def resim(job, seed):
  rng = random.Random(seed)
  with Tmp(rng) as T:
    recs = []
    for _ in range(rng.choice((1, 12))):
      ns, nk = rng.choice(((2, 2), (3, 2), (2, 3), (4, 2))); tab, r = ref.tnf_tm(rng, ns, nk, 2000, halt=rng.random() < 0.6)
      rec = bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(G.make(tab), allow_no_halt=False))
      with contextlib.redirect_stdout(io.StringIO()): bb.MS.run_options(rec, bb.options(max_loops=rng.choice((50, 300)), lin_steps=0, ctl=False, reverse_engineer=False, recursive=rng.random() < 0.5, block_size=rng.choice((None, 1, 2)), backsymbol=rng.random() < 0.7))
      if not rec.proto.filter.simulator.parameters.max_loops: continue
      rec.truth = r; rec.before = pb.TMRecord.FromString(ser(rec)); recs.append(rec)
    a, b = T.p(fname(rng, "a")), T.p(fname(rng, "b")); write(a, recs)
    out, e = cli("Re_Sim.py", a, b); job.count("tool_runs"); job.count("resim")
    if failed(job, "Re_Sim", e): return
    got = read(b); job.count("records_traced", len(recs))
    if len(got) != len(recs): job.violation(f"Re_Sim: {len(got)} records out of {len(recs)}"); return
    for g, r in zip(got, recs):
      w = r.before; info = dict(tm=r.ttable_str())
      if g.proto.tm.SerializeToString() != w.tm.SerializeToString(): job.violation("Re_Sim: machine altered", **info)
      x, y = pb.TMRecord.FromString(ser(g)), pb.TMRecord.FromString(w.SerializeToString()); x.filter.ClearField("simulator"); y.filter.ClearField("simulator")
      if x.filter != y.filter: job.violation("Re_Sim: results of other filters altered", **info)
      p, q = g.proto.filter.simulator.parameters, w.filter.simulator.parameters
      if (p.max_loops, p.block_size, p.has_blocksymbol_macro, p.max_tape_blocks) != (q.max_loops, q.block_size, q.has_blocksymbol_macro, q.max_tape_blocks): job.violation("Re_Sim: other parameters than in the record", before=str(q), after=str(p), **info)
      h = g.proto.status.halt_status
      if not h.is_decided: job.count("resim_undecided"); continue
      if h.is_halting and (not r.truth.halted or H.get_big_int(h.halt_steps) not in (0, r.truth.steps) or H.get_big_int(h.halt_score) != r.truth.nonzeros()): job.violation("Re_Sim: untrue halting result", got=str(h), want=(r.truth.steps, r.truth.nonzeros()), **info)
      if not h.is_halting and r.truth.halted: job.violation("Re_Sim: infinite, but halts", **info)
      job.nontrivial((r.ttable_str(), "resim", h.is_halting))

def lines_tools(job, seed):
  """Tools that work on text files of machines, a line each."""
  rng = random.Random(seed)
  with Tmp(rng) as T:
    lines = list({ref.fmt(machine(rng)) + rng.choice(("", " Halt 5 3", " Inf")) + "\n": 0 for _ in range(rng.choice((0, 2, 5, 30)))})
    a = T.p("a.txt"); open(a, "w").write("".join(lines)); n = rng.randint(0, len(lines) // 2)
    _, e = cli("Random_Sample.py", a, len(lines), n); job.count("tool_runs"); job.count("text_sample")
    if not failed(job, "Random_Sample", e, n=n, total=len(lines)):
      got = open(a + ".sample").read().splitlines(True); job.count("records_traced", n)
      if len(got) != n: job.violation("Random_Sample: wrong sample size", got=len(got), want=n)
      if len(set(got)) != len(got) or not set(got) <= set(lines): job.violation("Random_Sample: a line is repeated or altered", n=n, total=len(lines))
      if [l for l in lines if l in set(got)] != got: job.count("sample_reordered")
    # common and separate lines of two files
    L = [l for l in lines if rng.random() < 0.7]; R = [l for l in lines if rng.random() < 0.7]
    if rng.random() < 0.5: L += rng.choices(L, k=3) if L else []; R += rng.choices(R, k=3) if R else []
    rng.shuffle(L); rng.shuffle(R)
    f = [T.p(x) for x in ("l.txt", "r.txt", "both", "lonly", "ronly")]; open(f[0], "w").write("".join(L)); open(f[1], "w").write("".join(R))
    _, e = cli("../Tools/venn_diff.py", *f); job.count("tool_runs"); job.count("venn")
    if not failed(job, "venn_diff", e, repeated=len(set(R)) != len(R)):
      b, l, r = (open(x).read().splitlines(True) for x in f[2:]); job.count("records_traced", len(L) + len(R))
      if (set(b), set(l), set(r)) != (set(L) & set(R), set(L) - set(R), set(R) - set(L)): job.violation("venn_diff: lines lost or in the wrong part", left=len(L), right=len(R), got=(len(b), len(l), len(r)))
      if len(set(L)) == len(L) and len(set(R)) == len(R) and len(b) + len(l) + len(r) != len(set(L) | set(R)): job.violation("venn_diff: a line is written twice")
    # a machine in another notation
    ns = rng.randint(1, 6); tab = ref.random_tm(rng, ns, 2, 0.15, 0.15); tab = [[(1, 1, -1) if c and c[2] < 0 else c for c in row] for row in tab]
    names = rng.sample("ABCDEFGIJKLMNOPQRSTUVWXY", ns) if rng.random() < 0.3 else "ABCDEF"[:ns]
    cell = lambda c: "- - -" if c is None else "H H H" if c[2] < 0 else f"{c[0]} {'LR'[c[1]]} {names[c[2]]}"
    g = T.p("g.cga"); open(g, "w").write("".join(f"{names[i]}  {cell(r[0])}   {cell(r[1])}{rng.choice(('', '  # note'))}\n{rng.choice(('', chr(10), '# remark' + chr(10)))}" for i, r in enumerate(tab)))
    if all(any(row) for row in tab) and any(row[1] or row[0] and row[0][0] for row in tab):   # Morphett's notation cannot name a state or symbol that no transition mentions
      o = T.p("g.morphett"); _, e = cli("IO_CGA_to_Morphett.py", g, o); job.count("tool_runs"); job.count("cga")
      if not failed(job, "IO_CGA_to_Morphett", e, tm=ref.fmt(tab)):
        got = [table(x.tm()) for x in read(o)]
        if len(got) != 1 or [[c and (c[1], c[2], c[3]) for c in row] for row in got[0]] != tab: job.violation("IO_CGA_to_Morphett: another machine", tm=ref.fmt(tab), got=str(got)[:400], text=open(o).read()[:400])
    # printed as a table
    tab = machine(rng); s = ref.fmt(tab); pbf = T.p("p.pb"); write(pbf, [bb.record(ref.fmt(machine(rng))) for _ in range(2)] + [bb.record(s)])
    for arg in (s, pbf + ":2"):
      if arg == s and not re.fullmatch(r"([0-9][LR][A-Z]|---|_)+", s): continue
      out, e = cli("TM_Print.py", "--", arg); job.count("tool_runs"); job.count("table_prints")
      if failed(job, "TM_Print", e, tm=s): continue
      rows = [[x.strip() for x in l.strip("|").split("|")] for l in out.splitlines() if l.startswith("|")]
      if "_".join("".join(r[1:]) for r in rows[2:]) != s: job.violation("TM_Print: the table is not the machine", tm=s, out=out[:500], arg=arg)
    job.nontrivial((seed, "lines"))

def main():
  c = Ctx("C23"); jobs = []
  for f, q, t in ((convert, 60, 600), (convert_bbc, 24, 200), (sort, 60, 600), (categorize, 60, 600), (sample, 60, 600), (uniform, 4, 24), (counts, 60, 600), (find, 48, 400), (filters, 100, 900), (resim, 32, 250), (lines_tools, 60, 600)):
    jobs += [(f, c.rng.getrandbits(40)) for _ in range(c.n(4 * q, 2 * t))]
  c.rng.shuffle(jobs)
  def go(job, f, seed):
    with job_limit(120): f(job, seed)
  c.pmap(go, jobs)
  c.require("tool_runs", c.n(500, 5000)); c.require("records_traced", c.n(3000, 30000)); c.require("filter_successes", 20); c.require("orders_checked", 100); c.require("uniform_samples", 2000)
  for k in ("halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite", "unknown"): c.require("category_" + k, 5)
  c.assumptions += ["an explicit refusal to compare tower numbers ends a tool without output", "CPS_Filter and Re_Sim start from a cleared status by design"]
  c.finish("tool_runs", "one run of a tool's command line on a generated record file, outputs compared record by record; distinct by tool input")
main()
