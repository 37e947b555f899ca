"""C12: round-trip monitor over every machine format; rejection of texts that are no machine."""
import io, itertools, os, random, re, shutil, struct, tempfile, traceback, zipfile
import vcheck_lib as V, ref, bb
from vcheck_lib import Ctx, job_limit, quiet

T = bb.TMm
def table(tm):
  """What the machine is: per cell None (undefined) or (symbol, dir, state or -1)."""
  out = []
  for s in range(tm.num_states):
    row = []
    for k in range(tm.num_symbols):
      t = tm.get_trans_object(k, s)
      if t.condition == T.UNDEFINED: row.append(None)
      elif t.condition == T.HALT: row.append((int(t.symbol_out), int(t.dir_out), -1))
      else:
        if t.condition != T.RUNNING: return "cell (%d,%d) has condition %r" % (s, k, t.condition)
        row.append((int(t.symbol_out), int(t.dir_out), int(t.state_out)))
    out.append(row)
  return out

def snapshot(tm):
  return (tm.num_states, tm.num_symbols, list(map(repr, tm.states)), list(map(repr, tm.symbols)), tm.init_symbol, tm.init_state, tm.init_dir,
          [[(t.condition, t.symbol_out, t.dir_out, int(t.state_out), str(t.condition_details), t.num_base_steps, dict(t.states_last_seen)) for t in row] for row in tm.trans_table])

def make(tab):
  q = [(s, k, *t) for s, row in enumerate(tab) for k, t in enumerate(row) if t]
  return T.tm_from_quintuples(q, states=list(range(len(tab))), symbols=list(range(len(tab[0]))))

def rand_tab(rng, small=False):
  x = rng.random()
  if small: ns, nk = rng.randint(1, 4), rng.randint(2, 3)
  elif x < 0.5: ns, nk = rng.randint(1, 7), rng.randint(2, 7)
  elif x < 0.7: ns, nk = rng.choice((6, 7, 8, 9)), rng.choice((2, 6, 7, 8, 9))
  elif x < 0.85: ns, nk = rng.choice((2, 23, 24, 25, 26, 30)), rng.choice((2, 3, 9, 10, 11))
  else: ns, nk = rng.randint(2, 60), rng.choice((2, 3, 12, 40))
  ph, pu = rng.choice((0, 0.05, 0.3)), rng.choice((0, 0.05, 0.3, 0.7))
  tab = [[None if rng.random() < pu else (rng.randrange(nk), rng.randrange(2), -1 if rng.random() < ph else rng.randrange(ns)) for _ in range(nk)] for _ in range(ns)]
  if rng.random() < 0.1: tab[rng.randrange(ns)] = [None] * nk
  if rng.random() < 0.1:
    k = rng.randrange(nk)
    for r in tab: r[k] = None
  return tab

def isomorphic(a, b):
  """b is a up to renaming states (start fixed) and non-blank symbols, after dropping states and symbols nothing refers to."""
  ns, nk = len(a), len(a[0]); m, n = len(b), len(b[0])
  if m > ns or n > nk: return False
  for ps in itertools.permutations(range(1, ns), m - 1):
    ps = (0,) + ps; inv = {x: i for i, x in enumerate(ps)}
    for pk in itertools.permutations(range(1, nk), n - 1):
      pk = (0,) + pk; ik = {x: i for i, x in enumerate(pk)}
      def tr(t):
        if t is None: return None
        return (ik.get(t[0], "?"), t[1], -1 if t[2] < 0 else inv.get(t[2], "?"))
      if all(tr(a[ps[i]][pk[j]]) == b[i][j] for i in range(m) for j in range(n)) and \
         all(a[s][k] is None for s in range(ns) for k in range(nk) if s not in inv or k not in ik): return True
  return False

def text_ok(tab): return len(tab) < 25 and len(tab[0]) < 10
def morphett_exact(tab):
  """The written lines name every state and symbol, the symbols in the order the reader numbers them."""
  seen = []
  for r in tab:
    for k, c in enumerate(r):
      if c and k and k not in seen: seen.append(k)
  return all(any(r) for r in tab) and seen == list(range(1, len(tab[0])))

def write_bbc(path, tabs):
  body = b"\0" * 30
  for t in tabs:
    for row in t:
      for c in row: body += bytes((0, 0, 0) if c is None else (c[0], 1 - c[1], c[2] + 1))
  with zipfile.ZipFile(path, "w") as z: z.writestr("seed.db", body)

def same(job, fmt, tab, tm, exact=True, **d):
  job.count("roundtrips"); job.count("rt_" + fmt); job.nontrivial((fmt, str(tab)))
  got = table(tm)
  if got != tab and (exact or isinstance(got, str) or not isomorphic(tab, got)):
    job.violation(f"{fmt}: the machine read back is not the one written", wrote=str(tab)[:600], got=str(got)[:600], **d)

def mod(fmt): return {"pb": bb.IO.Proto, "txt": bb.IO.StdText, "morphett": bb.IO.Morphett}[fmt]

def unchanged(job, fmt, before, rec):
  if snapshot(rec.tm()) != before: job.violation(f"{fmt}: writing changed the machine in memory", before=str(before)[:600], after=str(snapshot(rec.tm()))[:600])

def rec_of(tab, nh=False): return bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(make(tab), allow_no_halt=nh))

def files(job, seed, n, tmp):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  for it in range(n):
    gz = rng.random() < 0.4
    # ---- protobuf (packed and list), several records in a file
    tabs = [rand_tab(rng) for _ in range(rng.randint(1, 5))]; recs = []; p = os.path.join(d, "a.pb" + (".gz" if gz else ""))
    nh = [rng.random() < 0.3 for _ in tabs]
    with bb.IO.Writer(p) as w:
      for t, h in zip(tabs, nh):
        m = make(t); b0 = snapshot(m)
        r = bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(m, allow_no_halt=h))
        w.write_record(r); w.write_record(r); unchanged(job, "proto", b0, r)
        if table(m) != t: job.violation("proto: writing changed the machine in memory", before=str(t)[:300], after=str(table(m))[:300])
        if rng.random() < 0.3: w.flush()
    with bb.IO.Reader(p) as r: got = list(r)
    if len(got) != 2 * len(tabs): job.violation("proto: number of records differs", n=len(got), want=2 * len(tabs))
    for i, g in enumerate(got[:2 * len(tabs)]):
      same(job, "proto_" + str(g.proto.tm.WhichOneof("ttable")), tabs[i // 2], g.tm())
      if g.tm_enum().allow_no_halt != nh[i // 2]: job.violation("proto: allow_no_halt was lost", tab=str(tabs[i // 2])[:300])
    i = rng.randrange(2 * len(tabs))
    same(job, "load_tm", tabs[i // 2], bb.IO.load_tm(p, i)); same(job, "get_tm_file", tabs[i // 2], bb.IO.get_tm(f"{p}:{i}"))
    # every stored form, written over what was stored before
    t = tabs[0]; m = make(t); b0 = snapshot(m); pr = bb.io_pb2.TuringMachine()
    bb.TM_Record.write_tm(make(tabs[-1]), pr); bb.TM_Record.write_tm(m, pr); same(job, "overwritten", t, bb.TM_Record.read_tm(pr))
    if text_ok(t):
      pr = bb.io_pb2.TuringMachine(ttable_str=m.ttable_str()); same(job, "proto_str", t, bb.TM_Record.read_tm(pr)); same(job, "get_tm", t, bb.IO.get_tm(m.ttable_str()))
    if snapshot(m) != b0: job.violation("writing changed the machine in memory", before=str(b0)[:300], after=str(snapshot(m))[:300])
    # ---- standard text
    tabs = [t for t in (rand_tab(rng) for _ in range(rng.randint(1, 6))) if text_ok(t)]
    p = os.path.join(d, "a.txt" + (".gz" if gz else ""))
    if tabs:
      with bb.IO.Writer(p) as w:
        for t in tabs:
          r = rec_of(t); b0 = snapshot(r.tm())
          if rng.random() < 0.3: bb.Halting_Lib.set_halting(r.proto.status, rng.choice((7, 10**30)), rng.choice((3, None)), 0, 0)
          if rng.random() < 0.3: w.write_tm(r.tm())
          else: w.write_record(r)
          unchanged(job, "text", b0, r)
      with bb.IO.Reader(p) as r: got = list(r)
      if len(got) != len(tabs): job.violation("text: number of records differs", n=len(got), want=len(tabs))
      for t, g in zip(tabs, got):
        same(job, "text", t, g.tm())
        if g.tm().ttable_str() != ref.fmt(t): job.violation("text: printed differently after reading", got=g.tm().ttable_str(), want=ref.fmt(t))
      i = rng.randrange(len(tabs)); same(job, "load_tm", tabs[i], bb.IO.load_tm(p, i))
      s = io.StringIO()
      with bb.IO.StdText.Writer(s) as w: w.write_record(rec_of(tabs[0]))
      s.seek(0)
      with bb.IO.StdText.Reader(s) as r: same(job, "text_stream", tabs[0], r.read_record().tm())
    t = rand_tab(rng)
    if not text_ok(t):  # cannot be written in this format: must not be written as something else
      try:
        s = io.StringIO()
        with bb.IO.StdText.Writer(s) as w: w.write_record(rec_of(t))
        s.seek(0)
        with bb.IO.StdText.Reader(s) as r: g = r.read_record()
        if g is None: job.violation("text: a machine that does not fit was silently lost", size=(len(t), len(t[0])))
        else: same(job, "text_large", t, g.tm())
      except (ValueError, AssertionError, KeyError, IndexError, NotImplementedError): job.count("text_refused")
    # ---- Morphett
    t = rand_tab(rng, small=rng.random() < 0.6)
    if any(t[s][k] for s in range(len(t)) for k in range(len(t[0]))) and any(t[0]) and (morphett_exact(t) or len(t) <= 4 and len(t[0]) <= 3):
      p = os.path.join(d, "a.morphett" + (".gz" if gz else "")); r = rec_of(t); b0 = snapshot(r.tm())
      with bb.IO.Writer(p) as w: w.write_record(r)
      unchanged(job, "morphett", b0, r)
      with bb.IO.Reader(p) as rd: g = list(rd)
      if len(g) != 1: job.violation("morphett: number of records differs", n=len(g))
      for x in g[:1]: same(job, "morphett", t, x.tm(), exact=morphett_exact(t), text=(open(p).read()[:400] if not gz else ""))
    # ---- old text (write only): parsed here
    t = rand_tab(rng)
    if text_ok(t):
      p = os.path.join(d, "a.old"); r = rec_of(t); b0 = snapshot(r.tm())
      with bb.IO.OldText.Writer(p) as w: w.write_record(r)
      unchanged(job, "old text", b0, r)
      line = open(p).read().split("|")[0].strip()
      same(job, "old_text", t, bb.IO.parse_tm("_".join("".join(x.split()) for x in line.split("  "))))
    # ---- BBC database
    tabs = []
    for _ in range(rng.randint(1, 5) if rng.random() < .93 else rng.randint(40, 700)):
      tabs.append([[None if rng.random() < 0.1 else (1, rng.randrange(2), -1) if rng.random() < 0.1 else (rng.randrange(2), rng.randrange(2), rng.randrange(5)) for _ in range(2)] for _ in range(5)])
    p = os.path.join(d, "a.db.zip"); write_bbc(p, tabs)
    with bb.IO.BBC.Reader(p) as r: got = list(r)
    if len(got) != len(tabs): job.violation("bbc: number of records differs", n=len(got), want=len(tabs))
    for t, g in zip(tabs, got): same(job, "bbc", t, g.tm())
    with bb.IO.BBC.Reader(p) as r:
      ks = [r.skip_record() for _ in range(len(tabs) + 2)]
      if ks != [True] * len(tabs) + [False] * 2: job.violation("bbc: skipping miscounts the records", got=ks, n=len(tabs))
    i = rng.randrange(len(tabs)); same(job, "bbc_load", tabs[i], bb.IO.BBC.load_record(p, i).tm())
    idx = [rng.randrange(len(tabs)) for _ in range(rng.randint(1, 4) if len(tabs) < 9 else rng.randint(1, 400))]
    q = os.path.join(d, "x.index"); open(q, "wb").write(b"".join(struct.pack(">L", i) for i in idx))
    with bb.IO.BBC.IndexReader(p, q) as r:
      for i, g in zip(idx, list(r)): same(job, "bbc_index", tabs[i], g.tm())
    open(q, "w").write("".join("%d\n" % i for i in idx))
    with bb.IO.BBC.TextIndexReader(p, q) as r:
      l = list(r)
      if len(l) != len(idx): job.violation("bbc text index: number of records differs", n=len(l))
      for i, g in zip(idx, l): same(job, "bbc_index_text", tabs[i], g.tm())
  shutil.rmtree(d, ignore_errors=True)

CELL = re.compile(r"---|[0-9][LR][A-Z]")
def valid(s):
  rows = s.split("_")
  if any(len(r) % 3 or not r or len(r) != len(rows[0]) for r in rows): return False
  nk = len(rows[0]) // 3
  for r in rows:
    for i in range(0, len(r), 3):
      c = r[i:i + 3]
      if not CELL.fullmatch(c): return False
      if c != "---" and int(c[0]) >= nk: return False
  return True

def texts(job, seed, n):
  """Damaged machine texts: accepted only if still a machine, and then read as that machine."""
  rng = random.Random(seed)
  for _ in range(n):
    ns, nk = rng.randint(1, 6), rng.randint(2, 4)
    s = ref.fmt(ref.random_tm(rng, ns, nk))
    for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
      i = rng.randrange(len(s) + 1); x = rng.random()
      if x < 0.35: s = s[:i] + rng.choice("0123456789LRSABCDEFGHZabz_-?*. +|;:") + s[i + 1:]
      elif x < 0.55: s = s[:i] + s[i + 1:]
      elif x < 0.7: s = s[:i] + rng.choice("01LRABZ_-") + s[i:]
      elif x < 0.8: s = s[:i - i % 3] + s[i - i % 3 + 3:]
      elif x < 0.9: s = s[:i]
      else: s = s + rng.choice(("_", "_1RB", "---", "1R", "_" + s))
    if s != s.strip(): continue
    ok = valid(s); job.count("texts")
    try: tm = bb.IO.parse_tm(s)
    except V.JobTimeout: raise
    except Exception as e:
      job.count("texts_rejected")
      if ok: job.violation("a machine text was rejected", text=s, error=repr(e)[:200])
      continue
    if not ok: job.violation("text that is no machine was accepted", text=s, read=tm.ttable_str()); continue
    job.count("texts_accepted")
    rows = s.split("_"); w = []
    for r in rows:
      w.append([None if c == "---" else (int(c[0]), "LR".index(c[1]), ord(c[2]) - 65 if ord(c[2]) - 65 < len(rows) else -1) for c in (r[i:i + 3] for i in range(0, len(r), 3))])
    same(job, "parse", w, tm, text=s)

def morph_bad(job, seed, n, tmp):
  rng = random.Random(seed); p = tempfile.mktemp(dir=tmp, suffix=".morphett")
  for _ in range(n):
    t = rand_tab(rng, small=True)
    if not any(t[0]): continue
    with bb.IO.Writer(p) as w: w.write_record(rec_of(t))
    l = open(p).read().splitlines(); i = rng.randrange(len(l)); f = l[i].split()
    x = rng.random()
    if x < 0.4: f[3] = rng.choice("*xLR-")
    elif x < 0.7: f = f[:rng.randint(1, 4)]
    else: f = f + ["x"]
    if f[3:4] and f[3] in ("L", "R"): f[3] = "u"
    l[i] = " ".join(f); open(p, "w").write("\n".join(l) + "\n"); job.count("texts")
    try:
      with bb.IO.Reader(p) as r: g = list(r)
      job.violation("damaged Morphett text was accepted", line=l[i], read=str(table(g[0].tm()))[:300])
    except V.JobTimeout: raise
    except Exception: job.count("texts_rejected")
  os.path.exists(p) and os.unlink(p)

def guard(f):
  def g(job, *a):
    try:
      with job_limit(300), quiet(): f(job, *a)
    except V.JobTimeout: job.count("jobs_timed_out")
    except Exception as e: job.raised(e, args=str(a))
  return g

if __name__ == "__main__":
  ctx = Ctx("C12"); rng = ctx.rng; ref.lib()
  tmp = tempfile.mkdtemp(prefix="c12-")
  try:
    ctx.pmap(guard(files), [(rng.random(), 40, tmp) for _ in range(ctx.n(64, 800))])
    ctx.pmap(guard(texts), [(rng.random(), 500) for _ in range(ctx.n(64, 800))])
    ctx.pmap(guard(morph_bad), [(rng.random(), 60, tmp) for _ in range(ctx.n(16, 100))])
  finally: shutil.rmtree(tmp, ignore_errors=True)
  for k, m in (("rt_proto_ttable_packed", 1000), ("rt_proto_ttable_list", 1000), ("rt_text", 1000), ("rt_morphett", 300), ("rt_old_text", 300), ("rt_bbc", 1000), ("rt_bbc_index", 300), ("texts_rejected", 2000), ("texts_accepted", 2000)): ctx.require(k, m)
  ctx.finish("roundtrips", "random tables of 1-60 states and 2-40 symbols with halting, undefined and empty rows x every format, compressed or not, several records per file; damaged texts; non-trivial: distinct (format, machine) pairs read back")
