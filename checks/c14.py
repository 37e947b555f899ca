"""C14: record files cut at every byte; readers, skippers and mixtures of both."""
import gzip, os, random, shutil, subprocess, sys, tempfile
import vcheck_lib as V, ref, bb, recgen as G
from vcheck_lib import Ctx, job_limit, quiet
pb = bb.io_pb2

def drain(path, ops):
  """Apply read/skip operations until the end or an error.  -> (events, how it ended)"""
  ev = []
  try:
    with bb.IO.Proto.Reader(path) as r:
      for i in range(10**6):
        if ops(i):
          if not r.skip_record(): return ev, "end"
          ev.append(None)
        else:
          g = r.read_record()
          if g is None: return ev, "end"
          ev.append(g.proto.SerializeToString(deterministic=True))
  except Exception: return ev, "error"   # any explicit error will do

def check(job, what, ev, end, want, complete, boundary, **d):
  job.count("cut_reads")
  if len(ev) != complete: job.violation(f"{what}: {len(ev)} records returned, {complete} were complete", end=end, **d)
  for i, e in enumerate(ev[:len(want)]):
    if e is not None and e != want[i]: job.violation(f"{what}: record {i} is altered", **d)
  if boundary and end != "end": job.violation(f"{what}: error although the cut is on a record boundary", **d)
  if not boundary and end != "error": job.violation(f"{what}: no error although the last record is incomplete", end=end, **d)

BULKY = [0]
def build(rng, path, n, small):
  want, offs = [], [0]
  with bb.IO.Proto.Writer(path) as w:
    for _ in range(n):
      x = rng.random()
      if x < 0.05: rec = bb.TM_Record.TM_Record(proto=pb.TMRecord())   # empty message
      else:
        rec = G.rand_record(rng, p=rng.choice((0.02, 0.1) if small else (0.1, 0.5)), big=False if small else None)
        if x > 0.96 and not small: rec.proto.status.halt_status.halt_steps.hex_str = hex(rng.getrandbits(rng.choice((130, 300, 2000, 9000)) * 1000)); BULKY[0] += 1   # 64 KB and more
        if x < 0.3: rec.proto.ClearField("status"); rec.proto.ClearField("filter")
      want.append(rec.proto.SerializeToString(deterministic=True)); w.write_record(rec); w.flush(); offs.append(os.path.getsize(path))
  return want, offs

def plain(job, seed, every, tmp):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp); p = os.path.join(d, "a.pb"); q = os.path.join(d, "cut.pb")
  want, ends = build(rng, p, rng.randint(1, 8) if every else rng.randint(1, 40), every)
  data = open(p, "rb").read(); N = len(data); job.count("files"); job.count("bulky_records", BULKY[0]); BULKY[0] = 0
  if ends[-1] != N: job.violation("flush did not write everything", sizes=ends, final=N)
  cuts = range(N + 1) if every and N < 3000 else sorted(set([rng.randrange(N + 1) for _ in range(60)] + [e + k for e in ends for k in (-1, 0, 1, 2, 3, 4, 5) if 0 <= e + k <= N]))
  with open(q, "wb") as f: f.write(data)
  for c in reversed(list(cuts)):
    os.truncate(q, c); job.count("cuts")
    k = sum(1 for e in ends[1:] if e <= c); b = c in ends
    m = rng.random(); mask = rng.getrandbits(64)
    for what, ops in (("read", lambda i: False), ("skip", lambda i: True), ("mixed", lambda i: mask >> (i % 64) & 1)):
      ev, end = drain(q, ops); check(job, what, ev, end, want, k, b, cut=c, size=N, ends=ends)
    if c == N or m < 0.1:
      i = rng.randrange(len(want))
      try: g = bb.IO.Proto.load_record(q, i); ok = "record"
      except Exception: ok = "error"
      job.count("loads")
      if (ok == "record") != (i < k): job.violation("loading by number: " + ok, i=i, complete=k, cut=c)
      elif ok == "record" and g.proto.SerializeToString(deterministic=True) != want[i]: job.violation("loading by number returned another record", i=i)
    if m > 0.9:   # the generic entry points and the iterator
      got, end = [], "end"
      try:
        with bb.IO.Reader(q) as r:
          for g in r: got.append(g.proto.SerializeToString(deterministic=True))
      except Exception: end = "error"
      check(job, "iterate", got, end, want, k, b, cut=c, size=N)
    job.nontrivial((seed, c))
  shutil.rmtree(d)

def zipped(job, seed, tmp):
  """A cut compressed file: a prefix of the records, then an error unless nothing of it is left."""
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp); p = os.path.join(d, "a.pb.gz"); q = os.path.join(d, "cut.pb.gz")
  want, _ = build(rng, p, rng.randint(1, 30), False); N = os.path.getsize(p); job.count("files")
  shutil.copy(p, q)
  for c in sorted(set([N, N - 1, N - 8, N - 9, 0, 1, 10, 11] + [rng.randrange(N) for _ in range(60)]), reverse=True):
    if not 0 <= c <= N: continue
    shutil.copy(p, q); os.truncate(q, c); mask = rng.getrandbits(64); job.count("cuts"); job.count("gz_cuts")
    for what, ops in (("gz read", lambda i: False), ("gz skip", lambda i: True), ("gz mixed", lambda i: mask >> (i % 64) & 1)):
      ev, end = drain(q, ops); job.count("cut_reads")
      if len(ev) > len(want) or any(e is not None and e != w for e, w in zip(ev, want)): job.violation(what + ": altered or invented record", cut=c, size=N)
      if c == N and (len(ev) != len(want) or end != "end"): job.violation(what + ": complete file not read completely", got=len(ev), want=len(want), end=end)
      if 0 < c < N and end != "error" and len(ev) < len(want): job.violation(what + ": records missing without an error", cut=c, size=N, got=len(ev), want=len(want))
  shutil.rmtree(d)

def killed(job, seed, tmp):
  """A writer that flushes and dies: every record it had flushed is there."""
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  for ext in ("pb", "pb.gz"):
    p = os.path.join(d, "k." + ext); n = rng.randint(1, 30); at = rng.randint(1, n); recs = [G.rand_record(rng, p=0.2) for _ in range(n)]
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
      try:
        w = bb.IO.Proto.Writer(p); w.__enter__()
        for i, r in enumerate(recs):
          w.write_record(r)
          if i + 1 == at: w.flush()
      finally: os._exit(9)
    os.waitpid(pid, 0); job.count("killed_writers")
    ev, end = drain(p, lambda i: False)
    want = [r.proto.SerializeToString(deterministic=True) for r in recs]
    if len(ev) > n or any(a != b for a, b in zip(ev, want)): job.violation("killed writer left an altered record", ext=ext)
    if len(ev) < at: job.violation("flushed records are missing after the writer was killed", ext=ext, flushed=at, got=len(ev), end=end)
  shutil.rmtree(d)

def tools(job, seed, tmp):
  """The tools that promise to move on after a cut file use exactly the complete records."""
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp); names, tot, truth = [], 0, []
  for j in range(3):
    p = os.path.join(d, f"t{j}.pb"); want, ends = build(rng, p, rng.randint(1, 12), True); N = os.path.getsize(p)
    c = rng.choice((N, rng.randrange(N), rng.choice(ends), max(0, rng.choice(ends) - 1))); os.truncate(p, c)
    k = sum(1 for e in ends[1:] if e <= c); tot += k; truth += want[:k]; names.append(p)
  r = subprocess.run([sys.executable, os.path.join(V.CODE, "IO_Count.py"), *names], capture_output=True, text=True, cwd=d)
  job.count("tool_runs")
  got = [x for x in r.stdout.splitlines() if x.startswith("Total")]
  if r.returncode or not got: job.violation("IO_Count failed on a cut file", err=r.stderr[-500:])
  elif int(got[0].split(":")[1].split("(")[0].strip().replace("_", "")) != tot: job.violation("IO_Count counts other than the complete records", got=got[0], want=tot)
  import IO_Sample
  from pathlib import Path
  out = os.path.join(d, "s.pb"); n = rng.choice((1, 2, tot, tot + 3, 5))
  with quiet(): IO_Sample.sample([Path(x) for x in names], Path(out), n)
  ev, end = drain(out, lambda i: False); pool = list(truth)
  if end != "end" or len(ev) != min(n, tot): job.violation("IO_Sample: wrong sample size from cut files", got=len(ev), want=min(n, tot), total=tot)
  for e in ev:
    if e in pool: pool.remove(e)
    else: job.violation("IO_Sample: a sampled record is no complete record of the files, or is taken twice"); break
  shutil.rmtree(d)

def guard(job, f, *a):
  with job_limit(400): FUNCS[f](job, *a)
FUNCS = dict(plain=plain, zipped=zipped, killed=killed, tools=tools)

if __name__ == "__main__":
  ctx = Ctx("C14", level="fault_enumeration"); rng = ctx.rng; tmp = tempfile.mkdtemp(prefix="c14_")
  try:
    jobs = [("plain", rng.random(), True, tmp) for _ in range(ctx.n(60, 900))] + [("plain", rng.random(), False, tmp) for _ in range(ctx.n(60, 600))]
    jobs += [("zipped", rng.random(), tmp) for _ in range(ctx.n(40, 500))] + [("killed", rng.random(), tmp) for _ in range(ctx.n(30, 300))] + [("tools", rng.random(), tmp) for _ in range(ctx.n(24, 200))]
    ctx.pmap(guard, jobs)
  finally: shutil.rmtree(tmp)
  for k, m in (("cuts", 5000), ("cut_reads", 15000), ("gz_cuts", 1000), ("killed_writers", 40), ("tool_runs", 20), ("loads", 100)): ctx.require(k, m)
  ctx.finish("cut_reads", "record files cut at every byte (small files) or at all record boundaries, their neighbourhoods and random bytes; read, skipped, mixed; non-trivial: a (file, cut) pair")
