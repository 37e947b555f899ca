"""C22: the time limit strikes at chosen delivery points of the interpreter; the record is judged afterwards."""
import os, random, signal, sys, time
import vcheck_lib as V, ref, bb, enummon as EM
from vcheck_lib import Ctx, quiet
import TM_Enum
M = sys.monitoring; E = M.events; TOOL = 3

class Runaway(BaseException): pass

class Injector:
  """Counts the points where CPython delivers signals (function entry, backward jump, return from a C
  call) while the interval timer is armed, and calls the installed SIGALRM handler at the k-th."""
  def __init__(self, at=None, watch=None, cap=None):
    self.n = 0; self.at = at; self.fired = False; self.watch = watch; self.changes = []; self.armed = False; self.cap = cap; self.where = None; self.hits = 0
    self.last = watch() if watch else None; self.exited = None
  def hit(self, code):
    now = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    can, self.armed = self.armed or now, now
    if not can or code.co_filename.startswith(V.VERIF): return
    self.n += 1
    if self.watch:
      w = self.watch()
      if w != self.last: self.changes.append(self.n); self.last = w
    if self.cap and self.n > self.cap: raise Runaway()
    if self.n == self.at:
      self.fired = True; self.where = f"{os.path.basename(code.co_filename)}:{code.co_name}"
      signal.getsignal(signal.SIGALRM)(signal.SIGALRM, sys._getframe(2))
  def start(self, code, off): self.hit(code)
  def jump(self, code, off, dest):
    if dest <= off: self.hit(code)
  def cret(self, code, off, f, arg): self.hit(code)
  def __enter__(self):
    M.use_tool_id(TOOL, "c22")
    for e, f in ((E.PY_START, self.start), (E.PY_RESUME, self.start), (E.JUMP, self.jump), (E.C_RETURN, self.cret)): M.register_callback(TOOL, e, f)
    M.register_callback(TOOL, E.CALL, lambda *a: None)
    M.set_events(TOOL, E.PY_START | E.PY_RESUME | E.JUMP | E.CALL)
    return self
  def __exit__(self, *a):
    M.set_events(TOOL, 0); M.free_tool_id(TOOL)

def status(rec): return EM.key(rec.proto)

def judge(job, rec, s, base, opts, table, **d):
  """The record after a run cut short."""
  job.count("records_judged")
  got = status(rec); st = rec.proto.status; h, q = st.halt_status, st.quasihalt_status
  if signal.getitimer(signal.ITIMER_REAL)[0]: job.violation("a timer is left running", tm=s, opts=opts, **d); signal.setitimer(signal.ITIMER_REAL, 0)
  if h.is_decided:
    job.count("decided_after_timeout")
    if got[:7] != base[:7]: job.violation("verdict after the timeout differs from the uninterrupted one", tm=s, opts=opts, got=got, want=base, **d)
    if rec.proto.filter.simulator.result.WhichOneof("exit_condition") == "unknown_info":
      job.violation("decided, but reported as out of time", tm=s, opts=opts, got=got, **d)
  elif h.is_halting or h.HasField("halt_steps") or h.HasField("halt_score"): job.violation("undecided with a half-written halting status", tm=s, opts=opts, got=got, **d)
  if q.is_decided and got[7:] != base[7:]: job.violation("quasihalting verdict after the timeout differs from the uninterrupted one", tm=s, opts=opts, got=got, want=base, **d)
  if not q.is_decided and (q.is_quasihalting or q.HasField("quasihalt_steps")): job.violation("undecided with a half-written quasihalting status", tm=s, opts=opts, got=got, **d)
  if rec.tm().ttable_str() != table or bb.IO.TM_Record.read_tm(rec.proto.tm).ttable_str() != table: job.violation("the machine was changed", tm=s, opts=opts, got=rec.tm().ttable_str(), want=table, **d)
  job.nontrivial((s, sorted(opts.items()), d.get("at"), got))

def timed(rec, opts, limit, inj=None):
  o = bb.options(**opts)
  try:
    with quiet(): bb.MS.run_timer(rec, o, limit)
    return None
  except Exception as e: return e

def truth_ok(base, s):
  """Is the uninterrupted verdict itself true?  (Otherwise another property's business.)"""
  r = ref.run(ref.parse(s), 200000, 1 << 20)
  if base[0] and base[1]: return r.halted and base[2] in (str(r.steps), "0")   # 0: steps not counted
  return not (base[0] and r.halted)

def machine(job, s, opts, samples, seed):
  rng = random.Random(seed); rec = bb.record(s, True); table = rec.tm().ttable_str()
  fresh = lambda: bb.record(s, True)
  r0 = fresh()
  try:
    with quiet(): bb.MS.run_options(r0, bb.options(**opts))
  except Exception as e:
    job.count("baseline_refused"); return
  base = status(r0)
  if base[0] and not truth_ok(base, s): job.count("baseline_untrue"); return
  # Points of delivery of an uninterrupted run under a limit never reached.
  r1 = fresh(); st = r1.proto.status
  with Injector(watch=lambda: (r1.proto.status.ByteSize(), r1.proto.status.halt_status.is_decided)) as inj:
    e = timed(r1, opts, 10**6)
  if e: job.violation("an uninterrupted run under a time limit raised " + repr(e)[:200], tm=s, opts=opts); return
  if status(r1) != base: job.violation("a time limit that is not reached changes the verdict", tm=s, opts=opts, got=status(r1), want=base)
  N = inj.n; job.count("delivery_points", N); job.count("runs"); job.count("kind_" + ("halting" if base[1] else "inf_%d" % base[6] if base[0] else "unknown"))
  if not N: return
  ks = set(range(1, N + 1)) if N <= samples else set(rng.sample(range(1, N + 1), samples // 2)) | set(range(max(1, N - 40), N + 1)) | set(range(1, 30))
  for c in inj.changes: ks |= set(k for k in range(c - 8, c + 9) if 1 <= k <= N)
  if N <= samples: job.count("runs_swept_completely")
  redo = set(rng.sample(sorted(ks), min(6, len(ks))))
  for k in sorted(ks):
    rec = fresh()
    if k in redo and rng.random() < 0.5: rec = bb.TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(rec.tm(), allow_no_halt=True))
    try:
      with Injector(at=k, cap=20 * N + 5000) as inj: e = timed(rec, opts, 10**6)
    except Runaway: job.errors.append(f"runaway {s} {opts} {k}"); signal.setitimer(signal.ITIMER_REAL, 0); continue
    if not inj.fired: job.count("not_reached"); continue
    job.count("timeouts_injected"); job.count("at_" + inj.where.split(":")[0])
    if e: job.violation("the timeout escaped: " + repr(e)[:200], tm=s, opts=opts, at=inj.where); signal.setitimer(signal.ITIMER_REAL, 0); continue
    judge(job, rec, s, base, opts, table, at=inj.where, k=k)
    if k in redo:   # decide the same machine (same objects) again
      job.count("redone")
      again = bb.TM_Record.TM_Record(tm_enum=rec.tm_enum())
      with quiet(): bb.MS.run_options(again, bb.options(**opts))
      if status(again) != base: job.violation("deciding the machine again after a timeout gives another verdict", tm=s, opts=opts, at=inj.where, got=status(again), want=base)
      # A timed-out record taken up again.
      before = status(rec)   # the verdict may be in already, with what goes with it (quasihalting) still open: then it may stay so
      with quiet(): bb.MS.run_options(rec, bb.options(**opts))
      if status(rec) != base and not (before[0] and status(rec) == before): job.violation("deciding the timed-out record again gives another verdict", tm=s, opts=opts, at=inj.where, got=status(rec), want=base)
  job.sample(f"{s} {opts}: {N} points, {len(ks)} timeouts, verdict changes at {inj.changes[:4]}")

def real(job, s, opts, n, seed):
  """Real SIGALRMs after tiny delays."""
  rng = random.Random(seed); r0 = bb.record(s, True); table = r0.tm().ttable_str()
  try:
    with quiet():
      t = time.perf_counter(); bb.MS.run_options(r0, bb.options(**opts)); t = time.perf_counter() - t
  except Exception: job.count("baseline_refused"); return
  base = status(r0)
  if base[0] and not truth_ok(base, s): return
  for _ in range(n):
    rec = bb.record(s, True); lim = max(2e-6, t * rng.random() ** 2 * 1.2)
    e = timed(rec, opts, lim); job.count("real_alarms")
    if e: job.violation("the timeout escaped: " + repr(e)[:200], tm=s, opts=opts); signal.setitimer(signal.ITIMER_REAL, 0); continue
    if rec.proto.filter.simulator.result.unknown_info.HasField("over_time"): job.count("real_timeouts")
    judge(job, rec, s, base, opts, table, limit=lim)

def enumeration(job, seed):
  """A whole enumeration whose machines are cut short at random points: still a partition with true verdicts."""
  rng = random.Random(seed); ns, nk = rng.choice(((2, 2), (3, 2), (2, 3))); noh = rng.random() < 0.5; first = rng.random() < 0.6
  p = rng.choice((0.1, 0.3)); injected = [0]; orig = bb.MS.run_timer
  real_limit = rng.random() < 0.3
  def run_timer(*a, **k):
    with Injector(at=rng.randint(1, 40) ** 2 if rng.random() < p else None) as inj:
      try: return orig(*a, **k)
      except Exception as e: job.violation("the timeout escaped: " + repr(e)[:200], size=(ns, nk)); raise
      finally: injected[0] += inj.fired
  if not real_limit: bb.MS.run_timer = run_timer
  args = ["--states=%d" % ns, "--symbols=%d" % nk, "--max-loops=100", "--time=%g" % (rng.choice((0.0002, 0.0005, 0.001, 0.002)) if real_limit else 10**6)]
  if noh: args.append("--allow-no-halt")
  if not first: args.append("--no-first-1rb")
  if rng.random() < 0.3: args.append("--no-ctl")
  if rng.random() < 0.3: args.append("--recursive")
  try:
    with EM.Dir() as d:
      recs = EM.enum(d.path("o.pb"), *args)
      job.count("enumerations"); job.count("enum_timeouts", injected[0] or sum(r.filter.simulator.result.unknown_info.HasField("over_time") for _, r in recs))
      for s, r in recs:
        if r.status.halt_status.is_decided and r.filter.simulator.result.WhichOneof("exit_condition") == "unknown_info": job.violation("decided, but reported as out of time", tm=s)
        if r.filter.simulator.result.unknown_info.threw_exception: job.violation("a timeout was recorded as an exception", tm=s)
      start = [[None] * nk for _ in range(ns)]
      if first: start[0][0] = (1, 1, 1)
      EM.check_output(job, recs, start, noh, first, 20000, EM.class_size(ns, nk, noh, first), size_=(ns, nk), args=args)
  finally: bb.MS.run_timer = orig

OPTS = [dict(), dict(lin_steps=0), dict(lin_steps=0, ctl=False), dict(reverse_engineer=False, lin_steps=0), dict(lin_steps=0, ctl=False, block_size=1), dict(lin_steps=20, recursive=True, block_size=1),
        dict(lin_steps=0, block_size=2, ctl=False, max_loops=200), dict(lin_steps=0, ctl=False, prover=False, block_size=1), dict(lin_steps=300, lin_min=True), dict(run_sim=False), dict(tape_limit=4, ctl=False, lin_steps=0),
        dict(lin_steps=0, ctl=False, backsymbol=False, block_size=3), dict(lin_steps=0, ctl=False, recursive=True, exp_linear_rules=True, block_size=1), dict(max_loops=3000, lin_steps=0, ctl=False)]

def main():
  c = Ctx("C22", level="fault_enumeration"); rng = c.rng; jobs, rl = [], []
  hand = ["1RB1LB_1LA1RZ", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "1RB2LB1RZ_2LA2RB1LB", "1RB1LA_0LB1RB", "1RB0LB_1LA0RB", "1RB1RC_0LC---_1RA1LB", "1RB1RA_1LA1LB", "1RB---_1RA1LB", "1RB---_1RA---", "1RB0LD_1LC1RA_0RB1LB_1RZ1LA",
          "1RB1LD_1RC1RB_1LC1LA_0RC0RD", "1RB0RB_1RC---_0LC1LB"]
  for i, s in enumerate(hand):
    for j, o in enumerate(OPTS):
      if (i + j) % c.n(3, 1) == c.seed % c.n(3, 1): jobs.append((machine, s, o, c.n(60, 400), rng.getrandbits(40)))
  corp = bb.corpus(rng, c.n(20, 120), max_steps=3000)
  def rnd():
    ns, nk = rng.choice(((2, 2), (3, 2), (2, 3), (4, 2), (3, 3)))
    return ref.fmt(ref.tnf_tm(rng, ns, nk, halt=rng.random() < 0.4)[0])
  ms = [s for s, _ in corp] + [rnd() for _ in range(c.n(30, 250))]
  for s in ms: jobs.append((machine, s, rng.choice(OPTS), c.n(60, 250), rng.getrandbits(40)))
  for s in rng.sample(ms, c.n(10, 60)) + hand: jobs.append((real, s, rng.choice(OPTS), c.n(25, 100), rng.getrandbits(40)))
  for _ in range(c.n(8, 60)): jobs.append((enumeration, rng.getrandbits(40)))
  rng.shuffle(jobs)
  c.pmap(lambda job, f, *a: f(job, *a), jobs)
  c.require("timeouts_injected", c.n(2000, 20000)); c.require("decided_after_timeout", c.n(100, 1000)); c.require("redone", c.n(100, 500))
  c.require("kind_halting", 5); c.require("enumerations", c.n(6, 40)); c.require("enum_timeouts", 5); c.require("real_timeouts", 5)
  c.assumptions += ["signals are delivered where CPython 3.12 polls for them: function entry, backward jumps, return from C calls", "one timeout per run"]
  c.finish("records_judged", "a run cut short by the timeout handler called at one delivery point; distinct by machine, options, place of the timeout and resulting status")
main()
