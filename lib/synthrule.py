"""Rules written down directly (count functions, minimum counts, step polynomial, last visits) and given to the
prover's rule application.  Oracle: exact iteration of the written functions on integers, stopping where a
count falls below the minimum."""
import math, random
import bb
import Algebraic_Expression as ae
from Algebraic_Expression import Variable, VariableToExpression, ConstantToExpression
from Exp_Int import exp_int
PS, Tape = bb.PS, bb.Tape
HUGE = 10 ** 400

class Fn:
  """One count: kind const / add c / mult (m, c) / pow (a, b, u, w, c, d) / any polynomial of other counts."""
  def __init__(self, kind, *p): self.kind, self.p = kind, p
  def __call__(self, vals, i):
    x = vals[i]; p = self.p
    if self.kind == "one": return 1
    if x is HUGE or isinstance(x, float): return HUGE if self.kind != "poly" else None
    if self.kind == "add": y = x + p[0]
    elif self.kind == "mult": y = p[0] * x + p[1]
    elif self.kind == "pow":
      a, b, u, w, c, d = p; e = u * x + w
      if e > 2000: return HUGE
      if e < 0: return None
      y, r = divmod(a * b ** e + c, d)
      if r: return None
    else:
      if any(isinstance(v, float) or v is HUGE for v in vals): return None
      y = p[1] + sum(k * vals[j] for j, k in p[0].items())
    return HUGE if y > HUGE else y
  def expr(self, vs, i):
    x = VariableToExpression(vs[i]) if vs[i] else None; p = self.p
    if self.kind == "one": return 1
    if self.kind == "add": return x + p[0]
    if self.kind == "mult": return x * p[0] + p[1]
    if self.kind == "pow":
      a, b, u, w, c, d = p
      return (a * exp_int(b, x * u + w) + c) / d
    r = ConstantToExpression(p[1])
    for j, k in p[0].items(): r = r + VariableToExpression(vs[j]) * k
    return r
  def __repr__(self): return f"{self.kind}{self.p}"

def mktape(opts, left, right, nums, d):
  t = Tape.Chain_Tape(); t.init(0, d, opts)
  it = iter(nums)
  for side, syms in ((0, left), (1, right)):
    for s in syms: t.tape[side].append(Tape.Repeated_Symbol(s, next(it)))
  return t

def ev(x, env):
  if isinstance(x, (int, float)): return x
  if ae.variables(x): x = ae.substitute(x, env)
  if isinstance(x, int): return x
  if isinstance(x, ae.Expression): return ev(x.const, {}) if x.is_const else None
  v = bb.try_eval(x)
  return v

def one(job, rng, seen=False):
  nl, nr = rng.randint(0, 3), rng.randint(0, 3)
  if nl + nr == 0: nr = 1
  n = nl + nr
  def syms(k):
    out = []
    for _ in range(k): out.append(rng.choice([s for s in range(4) if not out or s != out[-1]]))
    if out and out[0] == 0: out[0] = rng.choice([s for s in (1, 2, 3) if len(out) < 2 or s != out[1]])
    return out
  left, right = syms(nl), syms(nr)
  kind = rng.choice(("diff", "diff", "limited", "linear", "linear", "linear", "exp", "exp", "general"))
  fs, mins = [], []; base = rng.choice((2, 3))  # sums of powers of different bases are refused by design
  for i in range(n):
    mn = rng.randint(1, 6); q = rng.random()
    if q < .2: f = Fn("one"); mn = 1
    elif kind in ("diff", "limited"):
      c = rng.choice((-3, -2, -1, -1, -1, 0, 0, 1, 2, 5)); mn = max(mn, -c + 1); f = Fn("add", c)
    elif q < .6 or kind == "general" and q < .7:
      c = rng.choice((-3, -2, -1, -1, 0, 0, 1, 3)); mn = max(mn, -c + 1); f = Fn("add", c)
    elif kind == "linear" or kind == "exp" and q < .75:
      m = rng.choice((2, 2, 3, 4, 5, 7)); c = rng.choice((0, 1, 5, -1, -3, -8, -20, -rng.randint(1, 60))); mn = max(mn, -c // m + rng.choice((1, 2))); f = Fn("mult", m, c)
    elif kind == "exp":
      a, b, u, w, d = rng.randint(1, 3), base, rng.randint(1, 2), rng.choice((-2, -1, 0, 1, 3)), 1
      if b == 3 and rng.random() < .4: d = 2
      c = rng.choice((0, 1, -1, -2, -7, -25))
      if d == 2 and (a + c) % 2: c += 1
      mn = max(mn, 3); f = Fn("pow", a, b, u, w, c, d)
      while mn < 12 and (a * b ** (u * mn + w) + c) // d < 1: mn += 1
    else:
      js = rng.sample(range(n), rng.randint(1, min(2, n))); f = Fn("poly", {j: rng.randint(1, 3) for j in js}, rng.choice((-2, -1, 0, 1, 2, 4)))
    fs.append(f); mins.append(mn)
  for i, f in enumerate(fs):
    if f.kind == "poly":
      ok = all(fs[j].kind != "one" for j in f.p[0])
      if not ok: fs[i] = Fn("add", 0)
      elif sum(k * mins[j] for j, k in f.p[0].items()) + f.p[1] < 1: fs[i] = Fn("poly", f.p[0], 1)
  if all(f.kind == "one" for f in fs): return
  if kind in ("linear", "exp") and not any(f.kind in ("mult", "pow") for f in fs): kind = "general"
  if kind == "exp" and not any(f.kind == "pow" for f in fs): kind = "linear"
  vs = [None if f.kind == "one" else Variable() for f in fs]
  # steps of one application, and the last visits inside it, over the counts x_i (diff rules: over x_i - min_i)
  co = [rng.choice((0, 0, 1, 2, 3)) if v else 0 for v in vs]; c0 = rng.randint(1, 9); sq = rng.choice((0, 0, 0, 1)) if kind not in ("exp",) else 0
  # the polynomial is over the written variables
  def steps_of(y): return c0 + sum(a * b for a, b in zip(co, y)) + sq * sum(b * b for b, v in zip(y, vs) if v)
  def steps_expr(k0, c, s):
    e = ConstantToExpression(k0)
    for a, v in zip(c, vs):
      if v and a: e = e + VariableToExpression(v) * a
      if v and s: e = e + VariableToExpression(v) * VariableToExpression(v)
    return e
  ls = {}
  for st in rng.sample(range(4), rng.randint(1, 4)):
    if rng.random() < .5: ls[st] = (rng.randint(0, c0), [a if rng.random() < .5 else 0 for a in co], sq and rng.random() < .5)
    else: ls[st] = (rng.randint(0, c0), [0] * n, 0)
  def seen_of(st, y): k, c, s = ls[st]; return k + sum(a * b for a, b in zip(c, y)) + (s and sum(b * b for b, v in zip(y, vs) if v))
  lse = {st: steps_expr(*x) for st, x in ls.items()}
  d = rng.randint(0, 1); state = bb.TMm.Simple_Machine_State(rng.randrange(4)) if hasattr(bb.TMm, "Simple_Machine_State") else 0
  counting = rng.random() < .8
  opts = bb.options(prover=True, recursive=rng.random() < .5, exp_linear_rules=rng.random() < .6, exp_meta_linear_rules=rng.random() < .5, max_num_reps=rng.choice((1, 3, 10, 50)),
                    compute_steps=counting, limited_rules=kind == "limited")
  prover = PS.Proof_System(None, opts, "")
  rel = kind in ("diff", "limited")
  try:
    se = steps_expr(c0, co, sq)
    if rel:
      it = mktape(opts, left, right, [1 if v is None else VariableToExpression(v) + m for v, m in zip(vs, mins)], d)
      dt = mktape(opts, left, right, [0 if v is None else f.p[0] for v, f in zip(vs, fs)], d)
      if kind == "diff": rule = PS.Diff_Rule(it, dt, state, se, 1, 0, rng.random() < .3, lse)
      else:
        extra = ([rng.choice((1, 2, 3)) for _ in range(rng.randint(0, 2))], [rng.choice((1, 2, 3)) for _ in range(rng.randint(0, 2))])
        for s, k in ((0, nl), (1, nr)):
          it.tape[s] = it.tape[s][1:]; dt.tape[s] = dt.tape[s][1:]
        if not nl or not nr: return
        rule = PS.Limited_Diff_Rule(it, nl, nr, dt, state, se, 1, 0, lse)
    else:
      rt = mktape(opts, left, right, [f.expr(vs, i) for i, f in enumerate(fs)], d)
      # the two end-of-tape blocks are counts too (never changed)
      vl = [None] + vs[:nl] + [None] + vs[nl:]; ml = [math.inf] + [1 if v is None else m for v, m in zip(vs, mins)][:nl] + [math.inf] + [1 if v is None else m for v, m in zip(vs, mins)][nl:]
      if kind == "linear": rule = PS.Linear_Rule.try_gen(vl, list(ml), rt, se, 1, 0, lse)
      elif kind == "exp": rule = PS.Exponential_Rule.try_gen(vl, list(ml), rt, se, 1, 0, lse)
      else: rule = PS.General_Rule(vl, list(ml), rt, se, 1, 0, lse)
      if not rule: job.count("synthetic_refused_" + kind); return
  except (TypeError, AttributeError) as e:
    job.count("synthetic_not_built"); return
  job.count("synthetic_" + kind)
  spec = dict(kind=kind, left=left, right=right, functions=str(fs), mins=mins, steps=str(se), last_seen=str(lse), opts={k: getattr(opts, k) for k in ("recursive", "exp_linear_rules", "exp_meta_linear_rules", "max_num_reps", "compute_steps")})
  y0 = Variable()
  for _ in range(4):
    nums, sym = [], False
    for f, m in zip(fs, mins):
      if f.kind == "one": nums.append((1, 0)); continue
      v = rng.choice((m, m, m + 1, m + rng.randint(0, 4), m + rng.randint(0, 30), max(2, m - rng.randint(0, 2)), max(2, m - 1)))
      s = rng.random() < .25 and opts.recursive and kind != "exp"
      nums.append((v, rng.choice((1, 1, 2)) if s else 0)); sym |= s
    tower = rng.random() < .15  # the same counts held as tower formulas
    def hold(a):
      k = rng.randint(1, max(1, a.bit_length()))
      return exp_int(2, k) + (a - 2 ** k) if tower and a > 1 and rng.random() < .6 else a
    cur = [hold(a) if not b else VariableToExpression(y0) * b + a for a, b in nums]
    L, R, C = left, right, cur
    if kind == "limited":
      L, R = extra[0] + left, extra[1] + right; xs = [rng.randint(1, 5) for _ in extra[0]], [rng.randint(1, 5) for _ in extra[1]]
      C = xs[0] + cur[:nl] + xs[1] + cur[nl:]
    tape = mktape(opts, L, R, C, d); before = tape.copy()
    data = dict(counts=str(nums), **spec)
    job.count("synthetic_instances")
    try: good, res = prover.apply_rule(rule, (state, tape, 0, 0))
    except bb.ExpIntException: job.count("synthetic_declined"); continue
    except NotImplementedError: job.count("synthetic_declined"); continue
    except (AssertionError, TypeError):
      if not tower: raise
      job.count("synthetic_tower_refused"); continue  # powers, fractions or mixed bases of tower numbers: refused loudly
    if tape != before: job.violation("applying a rule altered the tape it was given", **data); return
    if not good: job.count("synthetic_not_applied"); continue
    r = res[0]
    for y in ((0, 1, 2, 7) if sym else (0,)):
      env = {y0: y}; vals = [a + b * y for a, b in nums]; start = list(vals)
      def fits(v): return all(f.kind == "one" or x is HUGE or x >= m for f, m, x in zip(fs, mins, v))
      if r.condition == PS.INF_REPEAT:
        job.count("synthetic_infinite")
        for k in range(120):
          if not fits(vals): job.violation("a rule that stops applying is said to apply forever", stops_after=k, y=y, **data); return
          vals = [f(vals, i) for i, f in enumerate(fs)]
          if any(v is None for v in vals): break
        continue
      got = []
      bad = None
      new = r.new_tape
      for s, syl in ((0, L), (1, R)):
        blk = new.tape[s][1:]
        if [b.symbol for b in blk] != syl:
          # counts that became 0 are dropped; written rules never reach 0
          bad = f"blocks {blk}"; break
        got += [ev(b.num, env) for b in blk]
      if bad: job.violation("a rule changed the blocks of the tape", got=bad, y=y, **data); return
      if kind == "limited":
        if got[:len(xs[0])] != xs[0] or got[len(L):len(L) + len(xs[1])] != xs[1]: job.violation("a limited rule changed the tape outside its range", got=got, **data); return
        got = got[len(xs[0]):len(L)] + got[len(L) + len(xs[1]):]
      if any(v is None for v in got): job.count("synthetic_too_big"); continue
      total, reps, hit = 0, 0, None
      cand = [ (0, 0, None) ] if sym and got == vals else []
      for k in range(400):
        if not fits(vals): break
        last = [v - m if rel else v for v, m in zip(vals, mins)]
        if any(x is HUGE for x in last): break
        b4 = total; total += steps_of(last)
        vals = [f(vals, i) for i, f in enumerate(fs)]
        if any(v is None or v is HUGE for v in vals): vals = None; break
        if vals == got: cand.append((k + 1, total, {st: b4 + seen_of(st, last) for st in ls}))
      if not cand:
        if vals is None or vals and fits(vals): job.count("synthetic_beyond_horizon"); continue
        job.violation("the result of a rule is not reached by repeating it within its minimum counts", got=got, start=start, stopped_at=vals, y=y, **data); return
      job.count("synthetic_applications")
      job.nontrivial(("synthetic", str(fs), str(nums), kind, y))
      if counting and r.num_base_steps is not None:
        g = ev(r.num_base_steps, env)
        if g is None: continue
        ok = [c for c in cand if c[1] == g]
        if not ok: job.violation("the step count of a rule is not that of its repetitions", steps_got=g, candidates=[c[:2] for c in cand], start=start, got=got, y=y, **data); return
        job.count("synthetic_step_counts")
        if seen and r.states_last_seen and ok[0][2] is not None:
          w = {int(a): ev(b, env) for a, b in r.states_last_seen.items()}
          job.count("synthetic_last_seen")
          if w not in [c[2] for c in ok]: job.violation("last-seen data of a repeated rule differ", got=w, want=ok[0][2], start=start, y=y, **data); return

def work(job, seed, n, seen=False):
  rng = random.Random(seed)
  for _ in range(n):
    try: one(job, rng, seen)
    except bb.ExpIntException: job.count("synthetic_declined")

def run(ctx, jobs, n, seen=False):
  ctx.pmap(work, [(ctx.rng.random(), n, seen) for _ in range(jobs)])
  if not ctx.counts["synthetic_not_built"]:
    for k, m in (("synthetic_applications", 1000), ("synthetic_step_counts", 500), ("synthetic_infinite", 300), ("synthetic_exp", 50), ("synthetic_limited", 50)): ctx.require(k, m)
    if seen: ctx.require("synthetic_last_seen", 500)
