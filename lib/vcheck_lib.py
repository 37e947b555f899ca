"""Check runner: evidence, violations, known findings, parallel workers."""
import tempfile, collections, contextlib, io, json, multiprocessing, multiprocessing.connection, os, random, signal, sys, time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "Code")
EVID = os.path.join(VERIF, "evidence")

def repo_imports():
  """Make the repository's modules importable (fresh from the working tree)."""
  sys.dont_write_bytecode = True
  if CODE not in sys.path: sys.path.insert(0, CODE)

class Inconclusive(Exception): pass

def _failed(t, e, tb):
  """The check itself failed: no verdict (an exit status of 1 is for violations)."""
  traceback.print_exception(t, e, tb); print("INCONCLUSIVE: the check could not run"); sys.stdout.flush(); sys.stderr.flush(); os._exit(3)
sys.excepthook = _failed

class Job:
  """What a worker hands back."""
  def __init__(self):
    self.counts = collections.Counter(); self.viol = []; self.samples = []; self.distinct = set(); self.known = []
    self.errors = []
  def count(self, k, n=1): self.counts[k] += n
  def violation(self, what, **data): self.viol.append((what, data))
  def raised(self, e, **data):
    """An exception: a violation if the repository's code raised it (not our hooks), else our own failure."""
    tb = "".join(traceback.format_exception(e))[-2000:]
    own = [f.filename.startswith(REPO + "/") for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith((REPO + "/", VERIF + "/"))]
    if own and own[-1]: self.violation("raised " + repr(e)[:200], tb=tb, **data)
    elif isinstance(e, (AttributeError, TypeError)) and "'NoneType'" in str(e): self.violation("nothing was returned where a result is due: " + repr(e)[:200], tb=tb, **data)
    elif isinstance(e, FileNotFoundError) and str(e.filename).startswith(tempfile.gettempdir() + "/") and "Errno 2" in str(e): self.violation("an output that is due was not written: " + os.path.basename(str(e.filename)), tb=tb, **data)
    else: self.errors.append("harness: " + tb)
  def sample(self, s):
    if len(self.samples) < 3: self.samples.append(s)
  def nontrivial(self, key): self.distinct.add(zlib.crc32(repr(key).encode()) | (hash(len(repr(key))) << 32))

class JobTimeout(BaseException): pass

@contextlib.contextmanager
def job_limit(sec):
  """Bound the wall time of one unit of work (never a verdict: reported as skipped)."""
  def h(*_): raise JobTimeout()
  old = signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, sec)
  try: yield
  finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

_FUNC = None
def _call(a):
  args = a
  j = Job()
  try:
    _FUNC(j, *args)
  except JobTimeout:
    j.count("jobs_timed_out")
  except Inconclusive as e:
    j.errors.append("inconclusive: %s" % e)
  except Exception as e:
    j.raised(e, args=repr(args)[:500])
  except BaseException as e:
    j.errors.append("".join(traceback.format_exception(e))[-3000:])
  return j.counts, j.viol, j.samples, j.distinct, j.known, j.errors

LATE, LAST = 420, 840  # seconds: with a violation in hand, no need to go on; near the limit, say so rather than be cut off
def _worker(b, jobs, others):
  for a in others: a.close()
  while True:
    try: i = b.recv()
    except EOFError: return
    if i is None: return
    r = _call(jobs[i])
    try: b.send(r)
    except Exception as e: b.send((collections.Counter(), [], [], set(), [], [f"result of job {repr(jobs[i])[:200]} cannot be sent: {e!r}"]))

class Ctx:
  def __init__(self, prop, level="exploration"):
    self.prop = prop; self.level = level; self.stopped = False
    self.tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"): self.tier = sys.argv[1]
    try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: self.seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    self.rng = random.Random((self.seed << 8) ^ zlib.crc32(prop.encode()))
    self.t0 = time.time()
    self.counts = collections.Counter(); self.viol = []; self.samples = []; self.distinct = set()
    self.known_hits = collections.Counter(); self.errors = []; self.assumptions = []
    self.extra = {}
    self.known_list = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
      self.known_list = [k for k in json.load(open(kf))["findings"] if k.get("property") == prop and k.get("status") == "known"]
  quick = property(lambda self: self.tier == "quick")
  def n(self, quick, thorough): return quick if self.quick else thorough
  def sub_rng(self, *key): return random.Random(zlib.crc32(repr((self.seed, self.prop) + key).encode()))
  def count(self, k, n=1): self.counts[k] += n
  def sample(self, s):
    if len(self.samples) < 6: self.samples.append(s)
  def nontrivial(self, key): self.distinct.add(zlib.crc32(repr(key).encode()) | (len(repr(key)) << 32))
  def violation(self, what, **data): self.viol.append((what, data))
  def known(self, key): self.known_hits[key] += 1
  def merge(self, res):
    c, v, s, d, k, e = res
    self.counts.update(c); self.viol += v; self.distinct |= d; self.known_hits.update(k); self.errors += e
    for x in s: self.sample(x)
  def pmap(self, func, jobs, procs=8):
    """Run func(job, *args) for every args tuple in jobs, in forked workers."""
    global _FUNC
    jobs = list(jobs)
    _FUNC = func
    if procs <= 1 or len(jobs) <= 1:
      for a in jobs: self.merge(_call(a))
      return
    if self.stopped: return
    mp = multiprocessing.get_context("fork"); sys.stdout.flush(); sys.stderr.flush()
    # A pool of our own: a worker that dies (memory) is an error and never a hang, and stopping early cannot block.
    todo = iter(range(len(jobs))); busy = {}
    def start():
      a, b = mp.Pipe(); p = mp.Process(target=_worker, args=(b, jobs, [a] + list(busy)), daemon=True); p.start(); b.close()
      return a, p
    def give(a, p):
      i = next(todo, None)
      if i is None:
        with contextlib.suppress(OSError): a.send(None)
        a.close(); done.append(p); return
      busy[a] = (p, i)
      with contextlib.suppress(OSError): a.send(i)
    done = []
    for _ in range(min(procs, len(jobs))): give(*start())
    while busy:
      if len(self.viol) > 200 or self.viol and time.time() - self.t0 > LATE: self.stopped = True; break
      if self.tier == "quick" and time.time() - self.t0 > LAST: self.stopped = True; self.errors.append(f"stopped after {LAST} s with jobs left"); break
      for a in multiprocessing.connection.wait(list(busy), 5):
        p, i = busy.pop(a)
        try: self.merge(a.recv())
        except (EOFError, OSError):
          self.errors.append(f"a worker died in job {repr(jobs[i])[:300]}"); a.close(); done.append(p); a, p = start()
        give(a, p)
    for a, (p, i) in busy.items(): p.terminate(); done.append(p)
    for p in done:
      p.join(5)
      if p.is_alive(): p.kill(); p.join()
  def require(self, key, minimum):
    """A monitor that observed too little decides nothing."""
    if self.counts[key] < minimum:
      self.errors.append(f"observed only {self.counts[key]} < {minimum} events of '{key}'")
  def finish(self, evaluations_key, rule):
    os.makedirs(EVID, exist_ok=True)
    wall = time.time() - self.t0
    cov = {"evaluations": int(self.counts[evaluations_key]), "distinct_nontrivial": len(self.distinct),
           "rule": rule, "samples": self.samples or ["(none)"], "observed": dict(sorted(self.counts.items()))}
    cov.update(self.extra)
    ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
          "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.viol)}
    json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1, default=str)
    print(f"[{self.prop}] tier={self.tier} seed={self.seed} wall={wall:.1f}s observed={dict(sorted(self.counts.items()))} distinct={len(self.distinct)}")
    for k in self.known_list:
      if self.known_hits.get(k["key"]): print(f"KNOWN-FINDING: property={self.prop} {k['what']} (seen {self.known_hits[k['key']]}x)")
    unk = [k for k in self.known_hits if k not in {x["key"] for x in self.known_list}]
    for k in unk: self.viol.append((f"finding key {k} not listed", {}))
    if self.viol:
      for i, (what, data) in enumerate(self.viol[:5]):
        p = os.path.join(EVID, f"replay-{self.prop}-{i}.json")
        json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "data": data}, open(p, "w"), indent=1, default=str)
        print(f"VIOLATION property={self.prop} replay={p}")
        print("   ", what, str(data)[:600])
      sys.exit(1)
    if self.errors:
      print(f"[{self.prop}] INCONCLUSIVE: {len(self.errors)} errors; first:\n{self.errors[0]}")
      sys.exit(3)
    sys.exit(0)

@contextlib.contextmanager
def quiet():
  """Silence the chatty code under test."""
  o, e = sys.stdout, sys.stderr
  sys.stdout = io.StringIO(); sys.stderr = io.StringIO()
  try: yield sys.stdout
  finally: sys.stdout, sys.stderr = o, e
