"""C26: what the step-by-step viewers show (Visual_Simulator, Curses_Sim) and what ngram_entropy measures, against the run itself."""
import collections, contextlib, fcntl, json, math, os, pty, random, re, resource, select, shutil, string, struct, subprocess, sys, tempfile, termios, time
import vcheck_lib as V, ref, bb
from vcheck_lib import Ctx, job_limit
import IO, Direct_Simulator as DS, Visual_Simulator as VS, ngram_entropy as NG

COLOR = [49, 41, 42, 44, 46, 43, 45]  # white, red, green, blue, cyan, yellow, magenta
LETTERS = string.ascii_uppercase

class Run:
  """The machine, cell by cell."""
  def __init__(self, tab, state=0, left=(), right=()):
    self.tab = tab; self.q = state; self.pos = 0; self.n = 0; self.halted = False
    self.t = {i - len(left): s for i, s in enumerate(left)}; self.t.update({i: s for i, s in enumerate(right)})
    self.lo = -len(left); self.hi = max(0, len(right) - 1)
  def read(self): return self.t.get(self.pos, 0)
  def step(self):
    if self.halted: return
    c = self.tab[self.q][self.read()]; w, d, q = c if c is not None else (1, 1, -1)
    self.t[self.pos] = w; self.pos += 1 if d else -1; self.q = q; self.n += 1; self.halted = q == -1
    self.lo = min(self.lo, self.pos); self.hi = max(self.hi, self.pos)

def machine(rng, nk=None):
  k = rng.choice(("rand", "rand", "big", "tnf", "tnf", "run")); nk = nk or rng.choice((2, 2, 3, 4, 5, 6, 7))
  if k == "tnf": return ref.tnf_tm(rng, rng.randint(2, 6), min(nk, 4), 300, halt=rng.random() < .7, first_1rb=rng.random() < .8)[0]
  if k == "run":
    d = rng.randrange(2)
    return rng.choice(([[(rng.randrange(nk), d, 0)] * nk], [[(1, 1, 1), (1, 0, 0)], [(1, 0, 0), (1, 1, 1)]], [[(1, d, 1), (1, d, 0)], [(1, 1 - d, 0), (1, 1 - d, 1)]]))
  ns = rng.randint(1, 24) if k == "big" else rng.randint(1, 6)
  return ref.random_tm(rng, ns, nk, rng.choice((0, .02, .1)), rng.choice((0, .02, .1)))

class Full(BaseException): pass
class Refused(Exception): pass
STEPS = [0]; BOUND = [3000]
def bounded(step):
  def f(self, *a, **k):
    STEPS[0] += 1
    if STEPS[0] > BOUND[0]: raise Full()
    return step(self, *a, **k)
  return f
DS.DirectSimulator.step = bounded(DS.DirectSimulator.step)

class Out:
  """Standard output that has had enough after some lines (most machines never stop)."""
  def __init__(self, lines): self.b = []; self.n = lines
  def write(self, s):
    self.b.append(s); self.n -= s.count("\n")
    if self.n < 0: raise Full()
  def flush(self): pass
  def text(self): return "".join(self.b)

def main(mod, argv, lines, bound=3000):
  out = Out(lines); old = sys.argv; sys.argv = ["x"] + [str(a) for a in argv]; full = False; STEPS[0] = 0; BOUND[0] = bound
  try:
    with contextlib.redirect_stdout(out):
      try: mod.main()
      except Full: full = True
      except SystemExit as x:
        if x.code: r = Refused(f"exit status {x.code}"); r.argv = argv; raise r
  finally: sys.argv = old
  return out.text(), full

def cells(line):
  """What a terminal shows for a line: (character, background, bold) per column."""
  r = []; bg, bold = 49, False; i = 0
  while i < len(line):
    m = re.compile(r"\x1b\[([\d;]*)m").match(line, i)
    if m:
      for c in (m[1] or "0").split(";"):
        c = int(c or 0)
        if c == 0: bg, bold = 49, False
        elif c == 1: bold = True
        elif 40 <= c <= 49: bg = c
      i = m.end()
    else: r.append((line[i], bg, bold)); i += 1
  return r

def table(job, lines, tab, e):
  """The coloured transition table."""
  rows = [cells(l) for l in lines if "|" in l]; seen = 0
  for row in rows:
    text = "".join(c[0] for c in row); p = [x.strip() for x in text.split("|")]
    if len(p) < 3 or p[1] not in LETTERS or not p[1] or LETTERS.index(p[1]) >= len(tab): continue
    q = LETTERS.index(p[1]); seen += 1
    want = ["---" if c is None else f"{c[0]}{'LR'[c[1]]}{LETTERS[c[2]] if c[2] >= 0 else 'Z'}" for c in tab[q]]
    if p[2:2 + len(want)] != want: job.violation("the printed table is not the machine", row=text, want=want, **e)
    col = [(c[0], c[1]) for i, c in enumerate(row) if c[0].isdigit()]
    if any(b != COLOR[int(s)] for s, b in col): job.violation("a symbol of the printed table has another symbol's colour", row=text, got=col, **e)
  if seen != len(tab): job.violation("the printed table lacks states", rows=["".join(c[0] for c in r) for r in rows], **e)

def visual(job, rng):
  tab = machine(rng); s = ref.fmt(tab); nk = len(tab[0]); argv = []; what = [s]; state, left, right = 0, [], []
  e = dict(tm=s)
  if rng.random() < .6:
    def side():
      bl = []; sy = []
      for _ in range(rng.choice((0, 0, 1, 2, 4))):
        w = [rng.randrange(nk) for _ in range(rng.choice((1, 1, 2, 3)))]; k = rng.choice((0, 1, 1, 2, 3, 7, 12))
        bl.append("".join(map(str, w)) + ("" if k == 1 and rng.random() < .7 else f"^{k}")); sy += w * k
      return bl, sy
    (lb, left), (rb, right) = side(), side(); state = rng.randrange(len(tab)); L = rng.random() < .5
    what.append(" ".join(lb + ["<" + LETTERS[state] if L else LETTERS[state] + ">"] + rb)); e["config"] = what[-1]
    if L: right = [left[-1] if left else 0] + right; left = left[:-1]
    job.count("written_configurations")
  w = rng.choice((24, 31, 60, 80, 120, 201)); argv += ["-w", w]; half = w // 2 - 10
  rel = rng.random() < .4; notab = rng.random() < .5; ops = rng.choice(("a", "a", "a", "l", "r", "lr", "rl"))
  if rel: argv.append(rng.choice(("--relative", "-r")))
  if notab: argv.append("--no-ttable")
  if ops != "a" or rng.random() < .5: argv += [rng.choice(("-p", "--print")), ops]
  e["argv"] = argv; argv = argv + ["--"] + what; limit = rng.choice((5, 60, 300))
  try:
    with job_limit(30): text, full = main(VS, argv, limit + (0 if notab else 3 * len(tab) + 8))
  except V.JobTimeout: job.count("viewer_runs_given_up"); return
  job.count("viewer_runs"); lines = text.split("\n")
  if full: lines.pop()
  rows = [l for l in lines if re.match(r"(\x1b\[\d*m)*\s*\d+: ", l)]; head = lines[:lines.index(rows[0])] if rows else lines
  if not notab:
    table(job, head, tab, e); job.count("tables")
    if not any("".join(c[0] for c in cells(l)).strip() == s for l in head): job.violation("the machine itself is not printed", head=head[:40], **e)
  run = Run(tab, state, left, right); names = {}; shown = -1; want = iter(())
  def due():
    if "a" in ops: return True
    return "l" in ops and run.pos == run.lo or "r" in ops and run.pos == run.hi
  i = 0; steps = 0
  while i < len(rows):
    if due():
      c = cells(rows[i]); t = "".join(x[0] for x in c); a = t.index(": ") + 2; i += 1; job.count("rows_seen"); shown = run.n
      if int(t[:a - 2]) != run.n: job.violation("the row is not that step", want=run.n, row=t, **e); return
      mid = run.pos if rel else 0; got = c[a:a + 2 * half + 1]
      want = [(LETTERS[run.q] if run.q >= 0 else "!", COLOR[run.t.get(p, 0)], True) if p == run.pos else (" ", COLOR[run.t.get(p, 0)], False) for p in range(mid - half, mid + half + 1)]
      # bold only matters where there is something to read
      if [(x, b) for x, b, _ in got] != [(x, b) for x, b, _ in want]: job.violation("the row does not show the configuration", step=run.n, want="".join(x[0] for x in want), got=t, colours=[(k, x[1], y[1]) for k, (x, y) in enumerate(zip(want, got)) if x[:2] != y[:2]][:8], **e); return
      rest = "".join(x[0] for x in c[a + 2 * half + 1:]); m = re.fullmatch(r"\s*(\S+)\s+(\d+)\s*", rest)
      if not m or int(m[2]) != run.read() or c[-1][1] != COLOR[run.read()]: job.violation("wrong symbol under the head", step=run.n, want=run.read(), got=rest, **e); return
      if run.halted != (m[1] == "HALT") or names.setdefault(m[1], run.q) != run.q: job.violation("wrong state", step=run.n, want=run.q, got=m[1], names=names, **e); return
    if run.halted or i == len(rows): break
    run.step(); steps += 1
    if steps > 400000: break
  if i < len(rows): job.violation("rows that are no step of the run", row=rows[i][:100], **e); return
  if full:
    job.nontrivial((s, str(argv)))
    if STEPS[0] > BOUND[0]:  # cut off by the number of steps: every row up to there is due
      while run.n < BOUND[0] and not run.halted:
        if due() and run.n != shown: job.violation("a step is not shown", step=run.n, **e); return
        run.step()
  else:
    # the program ended: the machine must have stopped, and the last line says when
    while not run.halted and steps < 3000:
      run.step(); steps += 1
      if due(): job.violation("a step is not shown", step=run.n, **e); return
    m = re.search(r"Halted on step (\d+)", text)
    if not run.halted or not m or int(m[1]) != run.n: job.violation("wrong end", halted=run.halted, at=run.n, got=text[-100:], **e)
    job.count("viewer_runs_to_halt"); job.nontrivial((s, str(argv)))

def entropy(c):
  n = sum(c.values()); return sum(-k / n * math.log2(k / n) for k in c.values())

def ngram(job, rng):
  tabs = [machine(rng) for _ in range(rng.randint(1, 4))]; ws = rng.choice((2, 3, 4, 5, 5, 8)); n = rng.choice((1, 7, 50, 300)); e = dict(tms=[ref.fmt(t) for t in tabs], window=ws, samples=n)
  d = tempfile.mkdtemp(prefix="c26_")
  try:
    open(d + "/in", "w").write("".join(ref.fmt(t) + "\n" for t in tabs)); argv = [d + "/in"]
    if ws != 5 or rng.random() < .5: argv += ["--window-size", ws]
    if ws <= 3 and n == 300: n = 500 * 2 ** ws  # what it takes when not told
    else: argv += ["--num-samples", n]
    text, _ = main(NG, argv, 10000, 20 * n)
  finally: shutil.rmtree(d)
  rows = [l.split() for l in text.splitlines() if l.strip()]; job.count("entropy_runs")
  if [r[0] for r in rows] != [ref.fmt(t) for t in tabs]: job.violation("not one line per machine", got=text[:500], **e); return
  for t, r in zip(tabs, rows):
    run = Run(t); a, b = collections.Counter(), collections.Counter()
    for _ in range(n): run.step()
    for _ in range(n):
      run.step(); a[run.q, run.read()] += 1; b[(run.q,) + tuple(run.t.get(p, 0) for p in range(run.pos - ws // 2, run.pos - ws // 2 + ws))] += 1
    x, y = entropy(a), entropy(b); want = [(y - x) / (ws - 1), x, y]; job.count("entropies"); job.nontrivial(("ng", r[0], ws, n))
    if any(abs(float(g) - w) > 2e-6 for g, w in zip(r[1:], want)) or len(r) != 4: job.violation("wrong entropy", tm=r[0], want=want, got=r[1:], window=ws, samples=n)

def inproc(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    try: (visual if rng.random() < .8 else ngram)(job, rng)
    except Refused as x: job.violation("documented arguments are refused", why=str(x), argv=x.argv)

def in_tty(args, size, limit):
  """Run a program in a terminal of its own; True if it ended."""
  m, s = pty.openpty(); fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", *size, 0, 0))
  env = {k: v for k, v in os.environ.items() if k not in ("LINES", "COLUMNS")}; env["TERM"] = "xterm"
  def pre(): os.setsid(); fcntl.ioctl(0, termios.TIOCSCTTY, 0); resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 1)); resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
  p = subprocess.Popen(args, stdin=s, stdout=s, stderr=s, env=env, preexec_fn=pre); os.close(s); end = time.time() + 10 * limit
  try:
    while time.time() < end:
      r, _, _ = select.select([m], [], [], 1)
      if r:
        try:
          if not os.read(m, 65536): break
        except OSError: break
      elif p.poll() is not None: break
    else: return False
  finally:
    os.close(m)
    with contextlib.suppress(OSError): p.kill()
    p.wait()
  return True

def screen(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    tab = machine(rng); s = ref.fmt(tab); size = rng.choice(((10, 31), (24, 80), (40, 60), (12, 100))); buf = 2 * size[1] + rng.randrange(60)
    keys = []; vertical = rng.random() < .3
    for _ in range(rng.randint(0, 12)):
      k = rng.choice((["KEY_DOWN"], ["j"], ["KEY_NPAGE"], ["KEY_PPAGE"], ["<"], ["x"]) if vertical else (["KEY_DOWN"], ["j"], ["KEY_ENTER"], ["KEY_UP"], ["k"], ["KEY_NPAGE"], [" "], ["KEY_PPAGE"], ["b"], ["<"], ["KEY_RIGHT"], ["l"], ["KEY_LEFT"], ["h"], ["."], ["x"]))
      keys += k * rng.choice((1, 1, 2, 5, 30 if k[0] in ("l", "h", "KEY_LEFT", "KEY_RIGHT", "j") else 8))
    if not set(keys) & {"l", "h", "KEY_LEFT", "KEY_RIGHT", "."}: buf = max(size) + rng.choice((0, 0, 1, 7, 40))   # the whole buffer is in view
    e = dict(tm=s, lines=size[0], columns=size[1], buffer=buf, keys=keys); d = tempfile.mkdtemp(prefix="c26_"); o = d + "/out"
    try:
      ended = in_tty([sys.executable, os.path.join(V.VERIF, "lib", "curses_child.py"), json.dumps(keys), o, V.CODE, json.dumps(["--buffer-size", str(buf), "--log-file", d + "/log", "--", s])], size, 15)
      if not os.path.exists(o):
        # killed: by the processor-time limit (hung), or by something else
        if ended: job.violation("the viewer was stopped after 15 s of processor time", **e)
        else: job.errors.append(f"viewer: no result {e}")
        continue
      r = json.load(open(o))
    finally: shutil.rmtree(d)
    job.count("screen_runs"); job.nontrivial(("scr", s, str(keys)))
    if r["end"] != "ok": job.violation("the viewer failed", end=r["end"], tb=r.get("tb"), **e); continue
    if r["used"] != len(keys): job.violation("keys were not read", used=r["used"], **e)
    if len({tuple(p)[1] for p in r["pairs"]}) != 7: job.violation("two symbols look the same", pairs=r["pairs"], **e)
    # where the window should be
    L, C = r["size"]; want = [(0, 0)]; line = pos = 0; P = {"KEY_DOWN": 1, "j": 1, "KEY_ENTER": 1, "KEY_UP": -1, "k": -1, "KEY_NPAGE": L, " ": L, "KEY_PPAGE": -L, "b": -L}; top = {0: (0, 0)}
    for i, k in enumerate(keys, 1):
      if k in P: line = max(0, line + P[k])
      elif k == "<": line = 0
      elif k in ("KEY_RIGHT", "l"): pos += 1
      elif k in ("KEY_LEFT", "h"): pos -= 1
      elif k == ".": pos = 0
      top[i] = (line, pos)
    hist = []; run = Run(tab); far = max([0] + [x["row"] for x in r["shots"]] + [t[0] for t in top.values()]) + L + 1
    while len(hist) < far and not run.halted: hist.append((run.q, run.pos, dict(run.t))); run.step()
    last = {}
    for x in r["shots"]: last[x["after"]] = x
    if 0 not in last: job.violation("nothing is shown at first", **e); continue
    for i, k in enumerate(keys, 1):
      if k != "x" and i not in last: job.violation("a key shows nothing", key=k, **e); break
    for i, x in last.items():
      ln, ps = top[i]; bad = None; job.count("screens_seen")
      if run.halted: ln = x["row"]
      if x["screen"] != [0, 0, L - 1, C - 1]: bad = ("not the whole screen", x["screen"])
      if not run.halted and (len(x["rows"]) != L or len(x["rows"][0]) != C): bad = ("screen is not filled", len(x["rows"]))
      for y, row in enumerate(x["rows"]):
        if bad: break
        if ln + y >= len(hist):
          if any(c[0] != " " or c[1] not in (0, 1) for c in row): bad = ("a row after the halt", ln + y)
          continue
        q, hp, t = hist[ln + y]; left = ps - C // 2; job.count("screen_rows")
        for c, (ch, pair) in enumerate(row):
          p = left + c; w = LETTERS[q] if p == hp else " "
          if ch != w or (pair or 1) != t.get(p, 0) + 1: bad = ("a cell is wrong", dict(step=ln + y, position=p, want=(w, t.get(p, 0)), got=(ch, pair - 1))); break
      if bad: job.violation("screen: " + bad[0], detail=bad[1], after_keys=i, **e); break

if __name__ == "__main__":
  ctx = Ctx("C26")
  ctx.pmap(screen, [(ctx.rng.randrange(2**40), ctx.n(10, 30)) for _ in range(ctx.n(16, 64))])
  ctx.pmap(inproc, [(ctx.rng.randrange(2**40), ctx.n(50, 600)) for _ in range(32)])
  for k, n in (("rows_seen", 20000), ("viewer_runs_to_halt", 100), ("written_configurations", 200), ("tables", 100), ("entropies", 200), ("screens_seen", 100), ("screen_rows", 5000)): ctx.require(k, n)
  ctx.assumptions = ["at most 7 symbols and 24 states (the viewers have that many colours and letters)", "the curses viewer's buffer is at least twice the screen's width where the window moves sideways, and covers the screen otherwise"]
  ctx.finish("rows_seen", "a viewer run (machine, start configuration, options or keys) or an entropy measurement, distinct by its arguments")
