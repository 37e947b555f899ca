"""A stand-in for mpi4py.MPI whose message delivery and thread switching are driven by a seeded scheduler.

Every rank is a thread, but exactly one runs at a time; control changes hands only inside communication calls.
Messages of one (source, destination) pair arrive in order; everything else (who runs, when a message becomes
visible, whether a send returns at once or only when received, whether a cancel succeeds) is the schedule's choice.
"""
import collections, pickle, sys, threading, types

class Stop(BaseException): pass
class Msg:
  __slots__ = ("src", "dst", "tag", "data", "got", "cancelled")
  def __init__(self, src, dst, tag, data): self.src, self.dst, self.tag, self.data, self.got, self.cancelled = src, dst, tag, pickle.dumps(data), False, False

class World:
  def __init__(self, n, rng, p_deliver, p_sync, p_stay, max_events, p_freeze=0):
    self.p_freeze, self.frozen, self.freezes = p_freeze, None, 0
    self.n, self.rng, self.p_deliver, self.p_sync, self.p_stay, self.max_events = n, rng, p_deliver, p_sync, p_stay, max_events
    self.sem = [threading.Semaphore(0) for _ in range(n)]; self.done = [False] * n; self.pred = [None] * n
    self.flight = collections.defaultdict(collections.deque); self.box = [[] for _ in range(n)]
    self.events = 0; self.log = []; self.problem = None; self.errors = {}; self.local = threading.local(); self.main = threading.Semaphore(0); self.now = 1e9; self.sent = collections.Counter()
  # -- scheduling
  def me(self): return self.local.rank
  def runnable(self): return [r for r in range(self.n) if not self.done[r] and (self.pred[r] is None or self.pred[r]())]
  def deliver(self):
    ch = [k for k, q in self.flight.items() if q]
    if not ch: return False
    k = self.rng.choice(ch); m = self.flight[k].popleft()
    if not m.cancelled: self.box[k[1]].append(m)
    return True
  def pick(self):
    """Next rank to run, or None when nothing can ever run again."""
    while self.rng.random() < self.p_deliver and self.deliver(): pass
    while True:
      c = self.runnable(); f = self.frozen
      if f in c: c.remove(f)
      if c: return self.rng.choice(c)
      if self.deliver(): continue
      self.frozen = None              # nobody else can go on
      return f if f is not None and f in self.runnable() else None
  def stop(self, why):
    if self.problem is None: self.problem = why
    for s in self.sem: s.release()
    self.main.release()
  def switch(self, pred=None, what=""):
    if self.problem: raise Stop()
    me = self.me(); self.pred[me] = pred; self.events += 1; self.log.append((me, what))
    if self.events > self.max_events: self.stop("no end in sight"); raise Stop()
    if self.frozen is None and self.rng.random() < self.p_freeze: self.frozen = me; self.freezes += 1     # until nobody else can go on
    elif pred is None and self.rng.random() < self.p_stay: return
    nxt = self.pick()
    if nxt is None: self.stop("deadlock"); raise Stop()
    if nxt != me:
      self.sem[nxt].release(); self.sem[me].acquire()
      if self.problem: raise Stop()
    self.pred[me] = None
  def finish(self):
    me = self.me(); self.done[me] = True
    if self.problem: return
    if all(self.done): self.main.release(); return
    nxt = self.pick()
    if nxt is None: self.stop("deadlock")
    else: self.sem[nxt].release()
  def run(self, bodies):
    def t(r, body):
      self.local.rank = r; self.sem[r].acquire()
      try:
        if not self.problem: body()
      except Stop: pass
      except BaseException as e: self.errors[r] = e
      self.finish()
    th = [threading.Thread(target=t, args=(r, b), daemon=True) for r, b in enumerate(bodies)]
    for x in th: x.start()
    self.sem[self.rng.randrange(self.n)].release(); self.main.acquire()
    for x in th: x.join(5)
  def time(self):
    self.now += self.rng.choice((0, 0.001, 0.5, 4, 11)); return self.now

class Comm:
  def __init__(self, w): self.w = w
  def Get_rank(self): return getattr(self.w.local, "rank", 0)
  def Get_size(self): return self.w.n
  rank = property(Get_rank); size = property(Get_size)
  def _match(self, source, tag, me):
    for m in self.w.box[me]:
      if source in (ANY, m.src) and tag in (ANY, m.tag): return m
  def _post(self, obj, dest, tag):
    w = self.w; m = Msg(w.me(), dest, tag, obj); w.flight[(m.src, dest)].append(m); w.sent[tag] += 1; return m
  def send(self, obj, dest, tag=0):
    w = self.w; m = self._post(obj, dest, tag)
    w.switch((lambda: m.got) if w.rng.random() < w.p_sync else None, f"send{tag}")
  bsend = send
  def ssend(self, obj, dest, tag=0):
    m = self._post(obj, dest, tag); self.w.switch(lambda: m.got, f"ssend{tag}")
  def isend(self, obj, dest, tag=0):
    m = self._post(obj, dest, tag); self.w.switch(None, f"isend{tag}"); return Request(self.w, m)
  def recv(self, buf=None, source=-1, tag=-1, status=None):
    w = self.w; me = w.me()
    if self._match(source, tag, me) is None or w.rng.random() < .3: w.switch(lambda: self._match(source, tag, me) is not None, f"recv{tag}")
    m = self._match(source, tag, me); w.box[w.me()].remove(m); m.got = True
    if status is not None: status.m = m
    return pickle.loads(m.data)
  def Probe(self, source=-1, tag=-1, status=None):
    me = self.w.me(); self.w.switch(lambda: self._match(source, tag, me) is not None, f"probe{tag}")
    if status is not None: status.m = self._match(source, tag, me)
    return True
  probe = Probe
  def Iprobe(self, source=-1, tag=-1, status=None):
    me = self.w.me(); self.w.switch(None, f"iprobe{tag}"); m = self._match(source, tag, me)
    if m and status is not None: status.m = m
    return m is not None
  iprobe = Iprobe
ANY = -1
class Status:
  m = None
  def Get_source(self): return self.m.src
  def Get_tag(self): return self.m.tag
  source = property(Get_source); tag = property(Get_tag)
class Request:
  def __init__(self, w, m): self.w, self.m = w, m
  def Cancel(self):
    # succeeds only while the message is not visible yet, and then only perhaps
    if not self.m.got and any(self.m in q for q in self.w.flight.values()) and self.w.rng.random() < .5: self.m.cancelled = True
  def Wait(self, status=None): self.w.switch(None, "wait"); return True    # buffered: local
  def Test(self, status=None): self.w.switch(None, "test"); return True
  cancel, wait, test = Cancel, Wait, Test

def install(w):
  """sys.modules entries for mpi4py and time, to import the code under test with."""
  mpi = types.ModuleType("mpi4py.MPI"); mpi.ANY_SOURCE = mpi.ANY_TAG = ANY; mpi.COMM_WORLD = Comm(w); mpi.Status = Status; mpi.Request = Request
  pkg = types.ModuleType("mpi4py"); pkg.MPI = mpi
  import time as real
  t = types.ModuleType("time"); t.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")}); t.time = t.monotonic = t.perf_counter = w.time; t.sleep = lambda s: w.switch(None, "sleep")
  return {"mpi4py": pkg, "mpi4py.MPI": mpi, "time": t}
