"""C17: symbolic expressions against evaluation at many points."""
import math, random, traceback
from fractions import Fraction
import vcheck_lib as V, bb
from vcheck_lib import Ctx, job_limit, quiet
import Algebraic_Expression as A, Exp_Int as EI
from Macro import Proof_System as PS, Rule_Func as RF

class Bad(Exception): pass
NV = 4
VARS = [A.Variable(i) for i in (0, 1, 5, 30)]

def ev(x, env):
  """Value of whatever the code returned, through its own public substitution."""
  r = A.substitute(x, env)
  if A.is_expr(r): 
    if not r.is_const: raise Bad(f"substitution left variables: {r}")
    r = r.const
  if isinstance(r, EI.ExpInt):
    e = EI.try_eval(r)
    if e is None: raise Bad("cannot evaluate")
    r = e
  if isinstance(r, float): raise Bad(f"the value of {x} is a floating-point number, {r}")
  return r

class P:
  """Independent polynomial: dict monomial(tuple of exponents) -> Fraction."""
  def __init__(self, d): self.d = {k: v for k, v in d.items() if v}
  def __add__(s, o):
    d = dict(s.d)
    for k, v in o.d.items(): d[k] = d.get(k, 0) + v
    return P(d)
  def __mul__(s, o):
    d = {}
    for k, v in s.d.items():
      for l, w in o.d.items():
        m = tuple(a + b for a, b in zip(k, l)); d[m] = d.get(m, 0) + v * w
    return P(d)
  def scale(s, c): return P({k: v * c for k, v in s.d.items()})
  def at(s, env):
    t = Fraction(0)
    for k, v in s.d.items():
      m = Fraction(v)
      for x, e in zip(env, k): m *= Fraction(x) ** e
      t += m
    return t
Z = (0,) * NV
def const(c): return P({Z: Fraction(c)})
def var(i): return P({tuple(1 if j == i else 0 for j in range(NV)): Fraction(1)})

def points(rng, n=6):
  out = [(0,) * NV, (1,) * NV]
  for _ in range(n): out.append(tuple(rng.choice((0, 1, 2, 3, rng.randrange(50), rng.randrange(10**12))) for _ in range(NV)))
  return out

def same(job, rng, e, p, what):
  for pt in points(rng):
    env = dict(zip(VARS, pt))
    job.count("evaluations")
    got = ev(e, env); want = p.at(pt)
    if Fraction(got) != want: raise Bad(f"{what}: {e} at {pt} is {got}, truth {want}")

def work(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    pool = [(A.VariableToExpression(v), var(i)) for i, v in enumerate(VARS)]
    pool += [(A.VarPlusConstExpression(VARS[0], 5), var(0) + const(5)), (A.ConstantToExpression(7), const(7))]
    hist = []
    try:
      for _ in range(rng.randrange(4, 14)):
        op = rng.choice(("add", "sub", "mul", "addi", "muli", "neg", "div", "pow", "radd", "rsub", "subst", "parse", "cmp", "cmp", "lin"))
        (a, pa), (b, pb) = rng.choice(pool), rng.choice(pool)
        c = rng.choice((0, 1, -1, 2, 3, -5, 12, rng.randrange(-10**9, 10**9)))
        hist.append((op, str(a)[:80], str(b)[:80], c))
        job.count("operations")
        if op == "add": r, p = a + b, pa + pb
        elif op == "sub": r, p = a - b, pa + pb.scale(-1)
        elif op == "mul":
          if len(pa.d) * len(pb.d) > 60: continue
          r, p = a * b, pa * pb
        elif op == "addi": r, p = a + c, pa + const(c)
        elif op == "radd": r, p = c + a, pa + const(c)
        elif op == "rsub": r, p = c - a, pa.scale(-1) + const(c)
        elif op == "muli": r, p = (a * c if rng.random() < 0.5 else c * a), pa.scale(c)
        elif op == "neg": r, p = -a, pa.scale(-1)
        elif op == "div":
          k = rng.choice((1, 2, 3, 6, -2)); r, p = a / k, pa.scale(Fraction(1, k))
        elif op == "pow":
          k = rng.randrange(1, 4)
          if len(pa.d) > 4: continue
          r, p = a ** k, pa
          for _ in range(k - 1): p = p * pa
        elif op == "subst":
          # replace one or two variables by expressions
          ids = rng.sample(range(NV), rng.choice((1, 2)))
          reps = {i: rng.choice(pool) for i in ids}
          if any(len(x[1].d) > 3 for x in reps.values()) or len(pa.d) > 5 or max((max(k) for k in pa.d), default=0) > 3: continue
          r = A.substitute(a, {VARS[i]: x[0] for i, x in reps.items()})
          for pt in points(rng):
            env = dict(zip(VARS, pt)); pt2 = list(pt)
            for i, x in reps.items(): pt2[i] = x[1].at(pt)
            job.count("evaluations"); job.count("substitutions_checked")
            if Fraction(ev(r, env)) != pa.at(pt2): raise Bad(f"substitution into {a}: {r} at {pt}")
          continue
        elif op == "parse":
          if any(v.denominator != 1 for v in pa.d.values()): continue
          s = repr(a)
          try: r = A.Expression_from_string(s)
          except ValueError: 
            job.count("unparseable"); continue
          job.count("prints_parsed")
          same(job, rng, r, pa, f"parsed back from {s!r}")
          continue
        elif op == "cmp":
          check_cmp(job, rng, a, pa, b, pb, c); continue
        elif op == "lin":
          if not A.is_expr(a): continue
          l = a.as_strictly_linear()
          if l:
            job.count("linear_checked")
            v, m, k = l; i = VARS.index(v)
            for pt in points(rng):
              if pa.at(pt) != m * pt[i] + Fraction(k): raise Bad(f"as_strictly_linear({a}) = {l}")
          vs = A.variables(a)
          used = {VARS[i] for i in range(NV) if any(k[i] for k in pa.d)}
          if not used <= vs: raise Bad(f"variables({a}) = {vs} misses {used - vs}")
          continue
        same(job, rng, r, p, op)
        if len(p.d) <= 8 and all(abs(v.numerator) < 10**30 for v in p.d.values()) and A.is_expr(r): pool.append((r, p))
        if len(p.d) >= 3: job.nontrivial((op, str(r)[:200]))
    except Bad as e: job.violation(str(e)[:600], history=hist[-6:])
    except (A.BadOperation, NotImplementedError): job.count("declined")
    except Exception as e: job.raised(e, history=hist[-6:])
  job.sample(str(hist[-3:])[:300])

def check_cmp(job, rng, a, pa, b, pb, c):
  """Claims that hold 'always' are checked at many points; equality both ways."""
  if rng.random() < 0.5:   # a comparison likely to be true
    b, pb = a + 0, pa + const(0)
    for _ in range(rng.randrange(3)):
      i = rng.randrange(NV); k = rng.choice((1, 2, -1)); b = b - A.VariableToExpression(VARS[i]) * k; pb = pb + var(i).scale(-k)
    d = rng.choice((0, 1, -1)); b = b + d; pb = pb + const(d)
  d = pa + pb.scale(-1)
  ge, gt = A.always_ge(a, b), A.always_gt(a, b)
  job.count("always_true" if ge else "always_unknown")
  for pt in points(rng, 12):
    v = d.at(pt)
    if ge and v < 0: raise Bad(f"always_ge({a}, {b}) but {v} at {pt}")
    if gt and v <= 0: raise Bad(f"always_gt({a}, {b}) but {v} at {pt}")
  # linear claims that are true must not be missed when coefficients are non-negative
  if all(v >= 0 for v in d.d.values()):
    job.count("must_hold")
    if not ge: raise Bad(f"always_ge({a}, {b}) missed")
    if d.d.get(Z, 0) > 0 and not gt: raise Bad(f"always_gt({a}, {b}) missed")
  if A.is_expr(a) :
    eq = (a == b)
    job.count("equalities")
    if bool(eq) != (not d.d): raise Bad(f"({a} == {b}) is {eq}")
    if (a != b) == bool(eq): raise Bad("== and != agree")
  mv = A.min_val(a)
  if mv not in (-math.inf,):
    for pt in points(rng, 6):
      if pa.at(pt) < mv: raise Bad(f"min_val({a}) = {mv} but {pa.at(pt)} at {pt}")

def series(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    k = VARS[0]; e = A.ConstantToExpression(rng.randrange(-9, 30)); p = const(e.const)
    terms = []
    for _ in range(rng.randrange(1, 6)):
      c = rng.choice((1, 2, 3, 6, 12, -1, rng.randrange(-40, 40) or 1)); pw = rng.randrange(0, 4); other = rng.choice((None, None, 1, 2)); 
      t = A.ConstantToExpression(c); q = const(c)
      for _ in range(pw): t = t * A.VariableToExpression(k); q = q * var(0)
      if other is not None: 
        for _ in range(rng.randrange(1, 3)): t = t * A.VariableToExpression(VARS[other]); q = q * var(other)
      e = e + t; p = p + q
    N = rng.choice((0, 1, 2, 3, 5, 17, rng.randrange(60), "expr", "expr"))
    job.count("series")
    try:
      if N == "expr":
        m = rng.randrange(4); Ne = A.VariableToExpression(VARS[3]) + m
        s = PS.series_sum(e, k, Ne)
      else: s = PS.series_sum(e, k, N)
      for x in range(3):
        pt = [0, rng.randrange(20), rng.randrange(20), rng.randrange(12)]
        nn = pt[3] + m if N == "expr" else N
        want = sum(p.at((i, pt[1], pt[2], pt[3])) for i in range(nn))
        got = ev(s, dict(zip(VARS, pt)))
        job.count("evaluations")
        if Fraction(got) != want: raise Bad(f"sum of {e} over {k}=0..{nn}-1 is {got}, truth {want} at {pt}")
      # huge N: the closed form for a plain polynomial in k is a polynomial identity; check mod a prime by Lagrange-free differences
      if all(not any(kk[1:]) for kk in p.d):
        big = rng.randrange(10**20, 10**21)
        a1, a0 = PS.series_sum(e, k, big + 1), PS.series_sum(e, k, big)
        job.count("big_series")
        if Fraction(ev(a1, {})) - Fraction(ev(a0, {})) != p.at((big, 0, 0, 0)): raise Bad(f"telescoping of the sum of {e} at N={big}")
      job.nontrivial(str(e))
    except Bad as x: job.violation(str(x)[:500])
    except Exception as x: job.raised(x, expr=str(e), N=str(N))

def funcs(job, seed, n):
  """Repeated application of the rule functions."""
  rng = random.Random(seed)
  v = VARS[0]
  def val(x):
    if isinstance(x, EI.ExpInt):
      y = EI.try_eval(x); 
      if y is None: raise Bad("value should be evaluable")
      return y
    return x
  for _ in range(n):
    kind = rng.choice(("sub", "add", "mult", "pow")); mn = rng.randrange(1, 8); job.count("functions")
    try:
      if kind == "sub":
        c = rng.randrange(1, 6); f = RF.Subtract_Func(v, mn, c); x0 = rng.choice((mn + rng.randrange(40), mn, mn + 1))
        reps, fin = f.max_reps(x0)
        x = x0; t = 0
        while x >= mn: x -= c; t += 1
        if (val(reps), val(fin)) != (t, x): raise Bad(f"Subtract_Func(min {mn}, -{c}) from {x0}: {reps, fin} truth {t, x}")
        k = rng.randrange(0, t + 1)
        if val(f.apply_rep(x0, k)) != x0 - k * c: raise Bad(f"apply_rep sub {c} {x0} {k}")
        # huge starting counts
        big = EI.exp_int(rng.choice((2, 3, 7)), rng.randrange(1100, 3000)) + rng.randrange(100)
        reps, fin = f.max_reps(big)
        m = EI.try_eval(fin) if isinstance(fin, EI.ExpInt) else fin
        if not (mn - c <= m < mn): raise Bad(f"final count {fin} not just below the minimum {mn} -{c}")
        if (big - m) % c != 0: raise Bad("final count has the wrong residue")
        back = reps * c + m - big
        z = EI.try_eval(back) if isinstance(back, EI.ExpInt) else back
        if z != 0: raise Bad(f"reps*c + final != start: off by {back}")
        if A.is_expr(reps): pass
      elif kind == "add":
        c = rng.randrange(0, 9); f = RF.Add_Func(v, mn, c); x0 = rng.randrange(100); k = rng.randrange(50)
        if val(f.apply_rep(x0, k)) != x0 + k * c: raise Bad("Add_Func")
      elif kind == "mult":
        m = rng.randrange(2, 6); c = rng.randrange(-30, 30); f = RF.Mult_Func(v, mn, m, c)
        if f.min < mn: raise Bad("minimum lowered")
        x0 = f.min + rng.randrange(0, 30); k = rng.randrange(0, 9); x = x0
        for _ in range(k):
          if m * x + c < x: raise Bad(f"Mult_Func {m}x{c:+} decreases at {x} >= min {f.min}")
          x = m * x + c
        if k and val(f.apply_rep(x0, k)) != x: raise Bad(f"Mult_Func {m}x{c:+} applied {k} times to {x0}: {f.apply_rep(x0, k)} truth {x}")
        for y in range(f.min, f.min + 20):
          if m * y + c < y: raise Bad(f"Mult_Func {m}x{c:+} decreases at {y} >= min {f.min}")
      else:
        b = rng.choice((2, 3)); a = rng.randrange(1, 4); u = rng.randrange(1, 3); w = rng.randrange(-3, 4); d = rng.choice((1, 1, 2)); c = rng.randrange(-40, 8)
        mn = max(mn, 4)
        f = RF.Pow_Func(v, mn, base=b, coef_base=a, const_base=c, denom=d, coef_exp=u, const_exp=w)
        if f.min < mn: raise Bad("minimum lowered")
        for y in range(int(f.min), int(f.min) + 15):
          if Fraction(a * Fraction(b) ** (u * y + w) + c, d) < y: raise Bad(f"Pow_Func ({a}*{b}^({u}x{w:+}){c:+})/{d} decreases at {y} >= min {f.min}")
      job.nontrivial((kind, seed, _))
    except Bad as x: job.violation(str(x)[:500])
    except EI.ExpIntException: job.count("declined")
    except Exception as x: job.raised(x, kind=kind)

def powers(job, seed, n):
  """Expressions that mix variables and powers with variable exponents, against exact values."""
  rng = random.Random(seed)
  def pts(k=4): return [(0,) * NV, (1,) * NV] + [tuple(rng.randrange(6) for _ in range(NV)) for _ in range(k)]
  for _ in range(n):
    b = rng.choice((2, 2, 3)); pool = []; hist = []
    for i, v in enumerate(VARS[:2]):
      pool.append((A.VariableToExpression(v), (lambda i: lambda pt: Fraction(pt[i]))(i), {i}))
      u, w = rng.randrange(1, 3), rng.randrange(0, 4)
      pool.append((EI.exp_int(b, A.VariableToExpression(v) * u + w), (lambda i, u, w: lambda pt: Fraction(b) ** (u * pt[i] + w))(i, u, w), {i}))
    try:
      for _ in range(rng.randrange(3, 9)):
        op = rng.choice(("add", "sub", "mul", "mul", "addi", "muli", "neg", "subst", "cmp", "lin", "div", "div"))
        (x, f, fv), (y, g, gv) = rng.choice(pool), rng.choice(pool); c = rng.choice((1, -1, 2, 3, -5, 12, 10**17 + 1, 2**70, -10**400 - 1)); hist.append((op, str(x)[:100], str(y)[:100], c))
        job.count("power_operations")
        if op == "add": r, h, hv = x + y, (lambda f, g: lambda pt: f(pt) + g(pt))(f, g), fv | gv
        elif op == "sub": r, h, hv = x - y, (lambda f, g: lambda pt: f(pt) - g(pt))(f, g), fv | gv
        elif op == "mul": r, h, hv = x * y, (lambda f, g: lambda pt: f(pt) * g(pt))(f, g), fv | gv
        elif op == "addi": r, h, hv = (x + c if c % 2 else c + x), (lambda f, c: lambda pt: f(pt) + c)(f, c), fv
        elif op == "muli": r, h, hv = (x * c if c % 2 else c * x), (lambda f, c: lambda pt: f(pt) * c)(f, c), fv
        elif op == "neg": r, h, hv = -x, (lambda f: lambda pt: -f(pt))(f), fv
        elif op == "div":
          d = rng.choice((2, 3, 4, 8, -2, -3)); near = {p[j:] + p[:j] for p in ((u, w, 1, 2) for u in range(9) for w in range(9)) for j in (0,)}
          if A.is_const(x) or 2 in fv: continue
          if any(f(p).denominator != 1 or f(p) % d for p in near):
            m = {f(p) % d for p in near}
            if len(m) > 1: continue
            x = x - int(m.pop()); f = (lambda f, d: lambda pt: f(pt) - f((0, 0, 1, 2)) % d)(f, d)
          job.count("power_divisions")
          if not isinstance(x, EI.ExpInt): continue
          r, h, hv = x / d, (lambda f, d: lambda pt: f(pt) / d)(f, d), fv
        elif op == "subst":
          i = rng.randrange(2); z, q, qv = rng.choice(((A.VariableToExpression(VARS[2]) + c % 4, lambda pt, c=c: pt[2] + c % 4, {2}), (c % 5, lambda pt, c=c: c % 5, set()), (A.VariableToExpression(VARS[i]) + 2, lambda pt, i=i: pt[i] + 2, {i})))
          r = A.substitute(x, {VARS[i]: z})
          h = (lambda f, i, q: lambda pt: f(tuple(q(pt) if j == i else pt[j] for j in range(NV))))(f, i, q); hv = (fv - {i}) | (qv if i in fv else set())
        elif op == "cmp":
          mv = A.min_val(x)
          if mv != -math.inf:
            mv = EI.try_eval(mv)
            job.count("power_minima")
            for pt in pts(8):
              if mv is not None and f(pt) < mv: raise Bad(f"min_val({x}) = {mv} but {f(pt)} at {pt}")
          if A.always_ge(x, y):
            job.count("power_comparisons")
            for pt in pts(8):
              if f(pt) < g(pt): raise Bad(f"always_ge({x}, {y}) fails at {pt}")
          continue
        else:
          if A.is_expr(x):
            l = x.as_strictly_linear()
            if l:
              for pt in pts():
                m, k = Fraction(ev(l[1], dict(zip(VARS, pt)))), Fraction(ev(l[2], dict(zip(VARS, pt))))
                at = [f(tuple(t if j == VARS.index(l[0]) else pt[j] for j in range(NV))) for t in range(4)]
                if at[1] - at[0] != at[2] - at[1] or at[2] - at[1] != at[3] - at[2]: raise Bad(f"{x} is said to be linear")
          continue
        if not A.is_const(r):
          lost = {VARS[i] for i in hv if i < 3} - A.variables(r)
          if lost and any(h(pt[:i] + (pt[i] + 1,) + pt[i + 1:]) != h(pt) for i in hv if VARS[i] in lost for pt in pts()): raise Bad(f"variables({r}) misses {lost}")
        for pt in pts():
          job.count("evaluations"); job.count("power_evaluations")
          got = ev(r, dict(zip(VARS, pt)))
          if Fraction(got) != h(pt): raise Bad(f"{op}: {r} at {pt} is {got}, truth {h(pt)}")
        if len(str(r)) < 200: pool.append((r, h, hv))
        job.nontrivial(("powers", str(r)[:200]))
    except Bad as e:
      if str(e) == "cannot evaluate": job.count("declined")
      else: job.violation(str(e)[:600], history=hist[-6:])
    except (A.BadOperation, NotImplementedError, EI.ExpIntException): job.count("declined")
    except Exception as e: job.raised(e, history=hist[-6:])

if __name__ == "__main__":
  ctx = Ctx("C17")
  ctx.pmap(work, [(ctx.rng.random(), ctx.n(100, 1000)) for _ in range(ctx.n(48, 320))])
  ctx.pmap(series, [(ctx.rng.random(), ctx.n(150, 1500)) for _ in range(16)])
  ctx.pmap(funcs, [(ctx.rng.random(), ctx.n(400, 4000)) for _ in range(16)])
  ctx.pmap(powers, [(ctx.rng.random(), ctx.n(150, 2000)) for _ in range(16)])
  for k, m in (("power_evaluations", 3000), ("evaluations", 50000), ("series", 1000), ("functions", 2000), ("must_hold", 500), ("equalities", 1000), ("prints_parsed", 100)): ctx.require(k, m)
  ctx.finish("evaluations", "random operation histories on expressions in four variables, compared with an independent polynomial at several points; non-trivial when at least three monomials")
