"""Python wrapper of the reference executor, plus workload generators."""
import atexit, ctypes, os, shutil, subprocess, tempfile

_HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None

def lib():
  global _lib
  if _lib is None:
    d = tempfile.mkdtemp(prefix="vref_")
    so = os.path.join(d, "refsim.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(_HERE, "refsim.c")], check=True)
    L = ctypes.CDLL(so)
    shutil.rmtree(d)
    vp, i64, i32 = ctypes.c_void_p, ctypes.c_int64, ctypes.c_int
    L.ref_new.restype = vp
    L.ref_new.argtypes = [i32, i32, ctypes.POINTER(ctypes.c_int32), i64]
    L.ref_free.argtypes = [vp]
    L.ref_set.argtypes = [vp, ctypes.c_char_p, i64, i64, i64, i32]
    L.ref_run.argtypes = [vp, i64, i64, i64]
    for n in "nonzeros pos steps minpos maxpos lo len".split():
      f = getattr(L, "ref_" + n); f.restype = i64; f.argtypes = [vp]
    for n in "state halted undefined overflow from_state from_symbol".split():
      f = getattr(L, "ref_" + n); f.restype = i32; f.argtypes = [vp]
    L.ref_last_seen.restype = i64; L.ref_last_seen.argtypes = [vp, i32]
    L.ref_copy.argtypes = [vp, i64, i64, ctypes.c_char_p]
    L.ref_get.restype = i32; L.ref_get.argtypes = [vp, i64]
    L.ref_match.argtypes = [vp, ctypes.c_char_p, i64, i64, i32, i64]; L.ref_match.restype = i32
    L.ref_trace.argtypes = [vp, i64, ctypes.c_char_p]; L.ref_trace.restype = i64
    _lib = L
  return _lib

# ---- machines as plain data: list of rows of None | (sym, dir, state); dir 0=L 1=R; state -1 = halt
def parse(s):
  rows = []
  for r in s.strip().split("_"):
    row = []
    for i in range(0, len(r), 3):
      t = r[i:i+3]
      if t == "---": row.append(None)
      else:
        row.append((int(t[0]), 0 if t[1] == "L" else 1, ord(t[2]) - 65))
    rows.append(row)
  ns = len(rows)
  return [[None if t is None else (t[0], t[1], t[2] if t[2] < ns else -1) for t in row] for row in rows]

def fmt(tab):
  return "_".join("".join("---" if t is None else f"{t[0]}{'LR'[t[1]]}{'Z' if t[2] < 0 else chr(65 + t[2])}" for t in row) for row in tab)

class Ref:
  """A running reference machine."""
  def __init__(self, tab, max_len=1 << 26):
    self.tab = tab; self.ns = len(tab); self.nk = len(tab[0])
    flat = []
    for row in tab:
      for t in row:
        flat += [-1, 1, -1] if t is None else [t[0], t[1], t[2]]
    self.L = lib()
    arr = (ctypes.c_int32 * len(flat))(*flat)
    self.h = self.L.ref_new(self.ns, self.nk, arr, max_len)
  def __del__(self):
    if getattr(self, "h", None): self.L.ref_free(self.h); self.h = None
  def set(self, seg, seglo, pos, state):
    b = bytes(seg); self.L.ref_set(self.h, b, len(b), seglo, pos, state)
  def run(self, target, lo=1, hi=0):
    self.L.ref_run(self.h, target, lo, hi); return self
  def __getattr__(self, n):
    if n in ("pos","steps","minpos","maxpos","lo","len","state","overflow","from_state","from_symbol"):
      return getattr(self.L, "ref_" + n)(self.h)
    if n in ("halted", "undefined"): return bool(getattr(self.L, "ref_" + n)(self.h))
    raise AttributeError(n)
  def nonzeros(self): return self.L.ref_nonzeros(self.h)
  def cells(self, lo, n):
    if n <= 0: return b""
    buf = ctypes.create_string_buffer(n); self.L.ref_copy(self.h, lo, n, buf); return buf.raw
  def match(self, left, right, d, state, max_more):
    """Run on until the configuration is left|right (head on right[0] if d else left[-1])."""
    seg = bytes(left + right)
    if d: nl = len(left)
    else:
      nl = len(left) - 1
      if nl < 0: seg = bytes([0]) + seg; nl = 0
    return bool(self.L.ref_match(self.h, seg, len(seg), nl, state, max_more))
  def same(self, left, right, d, state):
    """None if the current configuration equals the one given, else a description."""
    if state != self.state: return f"state {state} != {self.state}"
    seg = bytes(left + right)
    lo = self.pos - len(left) + (0 if d else 1)
    if self.cells(lo, len(seg)) != seg or self.nonzeros() != len(seg) - seg.count(0):
      return f"tape {seg[:200]!r} at {lo} != {self.support()[1][:200]!r} at {self.support()[0]}"
    return None
  def trace(self, n):
    """state*nk+symbol before each of the next n steps, as bytes."""
    buf = ctypes.create_string_buffer(max(n, 1)); k = self.L.ref_trace(self.h, n, buf); return buf.raw[:k]
  def get(self, c): return self.L.ref_get(self.h, c)
  def last_seen(self): return [self.L.ref_last_seen(self.h, i) for i in range(self.ns)]
  def support(self):
    """(lo, bytes) of the tape trimmed of blanks."""
    raw = self.cells(self.lo, self.len)
    s = raw.lstrip(b"\0"); lo = self.lo + len(raw) - len(s)
    return (lo, s.rstrip(b"\0")) if s else (0, b"")

def run(tab, max_steps, max_len=1 << 26):
  return Ref(tab, max_len).run(max_steps)

# ---------------------------------------------------------------- generators
def random_tm(rng, ns, nk, p_halt=0.1, p_undef=0.05):
  tab = []
  for _ in range(ns):
    row = []
    for _ in range(nk):
      x = rng.random()
      if x < p_undef: row.append(None)
      elif x < p_undef + p_halt: row.append((rng.randrange(nk), rng.randrange(2), -1))
      else: row.append((rng.randrange(nk), rng.randrange(2), rng.randrange(ns)))
    tab.append(row)
  return tab

def tnf_tm(rng, ns, nk, max_steps=2000, halt=True, first_1rb=True):
  """Random walk down the TNF tree: every defined transition is used (unless the
  walk stops early), and with halt=True the last free transition reached halts."""
  tab = [[None] * nk for _ in range(ns)]
  tab[0][0] = (1, 1, 1 if ns > 1 else 0) if first_1rb else (rng.randrange(min(2, nk)), 1, rng.randrange(min(2, ns)))
  used_s, used_k = 2, 2
  free = ns * nk - 1
  while True:
    r = run(tab, max_steps, 1 << 20)
    if not (r.halted and r.undefined): return tab, r
    s, k = r.from_state, r.from_symbol
    if halt and free == 1:
      tab[s][k] = (1, 1, -1)
      return tab, run(tab, max_steps, 1 << 20)
    if free == 0: return tab, r
    ms, mk = min(used_s + 1, ns), min(used_k + 1, nk)
    q, w, d = rng.randrange(ms), rng.randrange(mk), rng.randrange(2)
    tab[s][k] = (w, d, q)
    used_s = max(used_s, q + 1); used_k = max(used_k, w + 1)
    free -= 1

def halting_tm(rng, ns, nk, min_steps=20, max_steps=5000, tries=400):
  """A TM that halts from blank after >= min_steps steps (best effort), full table."""
  best = None
  for _ in range(tries):
    tab, r = tnf_tm(rng, ns, nk, max_steps)
    if r.halted:
      if r.undefined:
        tab = [list(x) for x in tab]; tab[r.from_state][r.from_symbol] = (1, 1, -1)
        r = run(tab, max_steps)
      if r.halted and (best is None or r.steps > best[1].steps): best = (tab, r)
      if best and best[1].steps >= min_steps: break
  return best

def enum_tnf(ns, nk, max_steps, leaf):
  """Independent exhaustive TNF enumeration; calls leaf(tab, ref) on every leaf:
  machines which halt via their halt transition (A0=1RB root) or do not halt in budget."""
  stack = [[[None] * nk for _ in range(ns)]]
  stack[0][0][0] = (1, 1, 1)
  while stack:
    tab = stack.pop()
    r = run(tab, max_steps, 1 << 20)
    if not (r.halted and r.undefined): leaf(tab, r); continue
    s, k = r.from_state, r.from_symbol
    free = sum(t is None for row in tab for t in row)
    us = max(i for i in range(ns) if any(t is not None for t in tab[i]) or any(t and t[2] == i for row in tab for t in row))
    uk = max(1, max(t[0] for row in tab for t in row if t))
    h = [list(x) for x in tab]; h[s][k] = (1, 1, -1)
    leaf(h, run(h, max_steps, 1 << 20))
    if free == 1: continue
    for q in range(min(us + 2, ns)):
      for w in range(min(uk + 2, nk)):
        for d in (0, 1):
          c = [list(x) for x in tab]; c[s][k] = (w, d, q); stack.append(c)

# Long-running or structurally interesting machines (published champions etc).
CHAMPIONS = [
 ("1RB1LB_1LA1RZ", 6), ("1RB1RZ_0RC1RB_1LC1LA", 14), ("1RB1RZ_1LB0RC_1LC1LA", 21),
 ("1RB1LB_1LA0LC_1RZ1LD_1RD0RA", 107), ("1RB2LB1RZ_2LA2RB1LB", 38),
 ("1RB2LA1RA1RA_1LB1LA3RB1RZ", 3932964), ("1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", 47176870),
 ("1RB2LA1RZ_1RC2RB0RC_1LA2RC1LC", None), ("1RB1RZ_1LC1LC_1LA1RB", None),
]

def late_halts(tab, max_steps, min_steps=10):
  """Machines equal to tab except that one transition halts instead, which halt (late)."""
  out = []
  for s in range(len(tab)):
    for k in range(len(tab[0])):
      if tab[s][k] is None or tab[s][k][2] < 0: continue
      m = [list(x) for x in tab]; m[s][k] = (1, 1, -1)
      r = run(m, max_steps, 1 << 22)
      if r.halted and r.steps >= min_steps: out.append((fmt(m), r.steps))
  return out

SIZES = ((2, 2), (3, 2), (3, 2), (4, 2), (4, 2), (5, 2), (6, 2), (2, 3), (2, 3), (3, 3), (2, 4), (4, 3), (2, 5))
def hostile_halting(rng, corpus, max_steps=200_000, min_steps=10):
  """A machine that halts, late, often after looking like a non-halting one: (string, steps)."""
  while True:
    x = rng.random()
    if x < 0.35: return rng.choice(corpus)
    if x < 0.8:
      ns, nk = rng.choice(SIZES)
      tab, r = tnf_tm(rng, ns, nk, 1000, halt=False)
    else:
      tab = parse(rng.choice(corpus)[0])
      if rng.random() < 0.7:  # mutate one transition first
        s, k = rng.randrange(len(tab)), rng.randrange(len(tab[0]))
        if tab[s][k]: tab[s][k] = (rng.randrange(len(tab[0])), rng.randrange(2), rng.randrange(len(tab)))
    l = late_halts(tab, max_steps, min_steps)
    if l:
      # prefer the latest, but not always
      l.sort(key=lambda a: a[1])
      return l[-1] if rng.random() < 0.6 else rng.choice(l)

def builder_tm(rng, max_word=9, max_states=5):
  """A machine that first writes a chosen word (runs of symbols) and then works on it with a small
  random automaton: the tape seen by the automaton is not one that small machines produce."""
  nk = rng.choice((2, 3, 3, 4)); w = []
  while len(w) < rng.randint(2, max_word): w += [rng.randrange(1 if rng.random() < 0.8 else 0, nk)] * rng.choice((1, 1, 2, 3, 4))
  if rng.random() < 0.5:  # a long far run of a symbol that is not found nearer
    x = rng.randrange(1, nk); w = [x] * rng.randint(2, 5)
    for _ in range(rng.randint(1, 3)): w += [rng.choice([y for y in range(nk) if y != x])] * rng.choice((1, 1, 1, 2))
  w = w[:max_word]; d = rng.randrange(2); n = len(w); q = rng.randint(2, max_states)
  tab = [[(w[i], d, i + 1)] + [(w[i], d, i + 1) if rng.random() < 0.5 else (1, 1, -1) for _ in range(nk - 1)] for i in range(n)]
  tab[-1] = [(w[-1], 1 - d, n)] * nk
  if rng.random() < 0.35:  # count how often one symbol occurs; halt at the last count
    x = w[0] if rng.random() < 0.8 else rng.choice(w); back = rng.random() < 0.3
    for i in range(q):
      nx = (1, 1, -1) if i == q - 1 else (x if rng.random() < 0.7 else rng.randrange(nk), 1 - d, n + i + 1)
      tab.append([nx if k == x else (k, 1 - d, n + (0 if back else i)) for k in range(nk)])
      tab[-1][0] = (0, 1 - d, n + q) if x else tab[-1][0]
    tab.append([(0, 1 - d, n + q)] + [(1, 1, -1)] * (nk - 1))
    return tab, n
  drift = rng.random() < 0.6  # mostly sweep back over the word
  for i in range(q):
    row = []
    for k in range(nk):
      x = rng.random()
      if x < 0.12: row.append((1, 1, -1))
      elif drift and x < 0.7: row.append((k if rng.random() < 0.5 else rng.randrange(nk), 1 - d, n + (i if rng.random() < 0.4 else (i + 1) % q)))
      else: row.append((rng.randrange(nk), rng.randrange(2), n + rng.randrange(q)))
    tab.append(row)
  return tab, n

def config_tm(rng):
  """A machine that writes a chosen word, walks to a chosen cell of it and only then starts a small random
  automaton with a single halting transition.  Returns (table, step at which the automaton starts)."""
  nk = rng.choice((2, 3, 3, 4, 5)); x = rng.random()
  if x < 0.5: w = [rng.randrange(nk) for _ in range(rng.randint(1, 10))]
  else:   # a long background of runs of a few symbols, with a rare symbol somewhere (mostly far away)
    bg = rng.sample(range(nk), rng.randint(1, min(2, nk))); w = []
    n = rng.randint(10, 30) if x < 0.8 else rng.randint(30, 90)
    while len(w) < n: w += [bg[len(w) % len(bg)] if rng.random() < 0.7 else rng.choice(bg)] * rng.choice((1, 1, 1, 2, 3))
    for _ in range(rng.choice((0, 1, 1, 2))): w[rng.choice((0, 1, 2, -1, -2, -3, rng.randrange(len(w))))] = rng.randrange(nk)
  n = len(w); pos = rng.choice((0, n - 1, rng.randrange(n), rng.randrange(n))); back = n - pos   # cells to walk back
  d = rng.randrange(2); q = rng.randint(1, 4); A = n + back   # first state of the automaton
  tab = [[(w[i], d, i + 1)] * nk for i in range(n)] + [[(k, 1 - d, n + i + 1) for k in range(nk)] for i in range(back)]
  stay = rng.choice((0.1, 0.5, 0.8))
  for i in range(q):
    dd = rng.randrange(2); row = []
    for k in range(nk): row.append((k if rng.random() < stay else rng.randrange(nk), dd if rng.random() < 0.75 else 1 - dd, A + (i if rng.random() < 0.5 else rng.randrange(q))))
    tab.append(row)
  for _ in range(rng.choice((1, 1, 1, 2))): tab[A + rng.randrange(q)][rng.randrange(nk)] = (1, 1, -1) if rng.random() < 0.8 else None
  return tab, A

# ---------------------------------------------------------------- recurrences
def certify(tab, start, period, offset, max_len=1 << 24):
  """None if (period, offset) really recurs for ever from step `start`, else why not.
  The finite comparison of the relevant part of the tape implies the infinite claim."""
  if period <= 0: return "period not positive"
  r = Ref(tab, max_len).run(start)
  if r.halted or r.steps != start: return f"machine halts at step {r.steps}"
  lo, seg = r.lo, r.cells(r.lo, r.len); pos, st = r.pos, r.state
  q = Ref(tab, max_len); q.set(seg, lo, pos, st)
  q.run(period)
  if q.halted: return f"machine halts at step {start + q.steps}"
  if q.state != st: return "state differs after one period"
  if q.pos - pos != offset: return f"moves by {q.pos - pos} in one period"
  mn, mx = q.minpos, q.maxpos
  a0, a1 = min(lo, q.lo) - abs(offset) - 2, max(lo + len(seg), q.lo + q.len) + abs(offset) + 2
  if offset == 0: x0, x1 = mn, mx
  elif offset > 0: x0, x1 = mn, a1
  else: x0, x1 = a0, mx
  base = Ref(tab, max_len); base.set(seg, lo, pos, st)
  if base.cells(x0, x1 - x0 + 1) != q.cells(x0 + offset, x1 - x0 + 1): return "tape differs after one period"
  return None

def min_start(tab, start, period, max_len=1 << 24):
  """Given that `period` recurs from step `start`, the first step from which it does."""
  t = Ref(tab, max_len).trace(start + period)
  s = start
  while s > 0 and t[s - 1] == t[s - 1 + period]: s -= 1
  return s

def find_lr(tab, max_steps, max_len=1 << 22):
  """Independent recurrence search (Brent) on the reference: (start, period, offset) or None."""
  s = 1
  while s <= max_steps:
    r = Ref(tab, max_len).run(s)
    if r.halted: return None
    # candidate periods: same state and a record position or same place; test with certify
    base = Ref(tab, max_len).run(s); st = base.state; pos = base.pos
    q = Ref(tab, max_len).run(s)
    while q.steps < 2 * s:
      q.run(q.steps + 1)
      if q.halted: return None
      if q.state == st and certify(tab, s, q.steps - s, q.pos - pos, max_len) is None: return (s, q.steps - s, q.pos - pos)
    s *= 2
  return None
