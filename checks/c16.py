"""C16: order, sign and printed size of exponential-formula integers against exact truth."""
import math, random, re, traceback
from decimal import Decimal, getcontext
import vcheck_lib as V, bb, exptruth as X
from vcheck_lib import Ctx, job_limit
import Exp_Int as EI, Halting_Lib as H

TOL = Decimal("1e-11")    # relative, on log10: below this two huge numbers cannot be told apart
class Bad(Exception): pass

class Num:
  """value under test + truth: exact int, or (sign, log10, None) / tower (sign, 2, log10 log10)."""
  def __init__(self, v, key, text): self.v, self.key, self.text = v, key, text

def key_int(n):
  return ("x", n)
def klog(k):
  """(sign, log10|v|) for exact ints and polys"""
  if k[0] == "x": return (k[1] > 0) - (k[1] < 0), X.ilog10(abs(k[1])) if k[1] else None
  return k[1], k[2]

def order(a, b):
  """-1/0/1, and whether it is a near tie."""
  if a[0] == "x" and b[0] == "x":
    x, y = a[1], b[1]
    if abs(x) < 10**250 and abs(y) < 10**250: return (x > y) - (x < y), False
    o = (x > y) - (x < y)
    if o == 0: return 0, False
    sx, sy = (x > 0) - (x < 0), (y > 0) - (y < 0)
    if sx != sy or abs(x) < 10**250 or abs(y) < 10**250: return o, False
    lx, ly = X.ilog10(abs(x)), X.ilog10(abs(y))
    return o, abs(lx - ly) <= TOL * max(lx, ly)
  if a[0] == "t" or b[0] == "t":
    sa = a[1] if a[0] == "t" else klog(a)[0]; sb = b[1] if b[0] == "t" else klog(b)[0]
    if sa != sb: return (1 if sa > sb else -1), False
    if a[0] != "t": return -sb, False      # b is astronomically larger
    if b[0] != "t": return sa, False
    if a[2] != b[2]: return (sa if a[2] > b[2] else -sa), False
    la, lb = a[3], b[3]
    if abs(la - lb) <= TOL * max(la, lb): return 0, True
    return (sa if la > lb else -sa), False
  (sa, la), (sb, lb) = klog(a), klog(b)
  if sa != sb: return (1 if sa > sb else -1), False
  if sa == 0: return 0, False
  if abs(la - lb) <= TOL * max(abs(la), abs(lb), 1): return 0, True
  return (sa if la > lb else -sa), False

def gen_poly(rng, base, big):
  """A sum of powers, built through the public operations; exact when it fits."""
  k = rng.randrange(1, 5) if rng.random() < .85 else rng.randrange(8, 26)
  style = rng.choice(("spread", "close", "close", "cancel", "heavy"))
  top = rng.choice((rng.randrange(1, 60), rng.randrange(900, 1100), rng.randrange(1000, 4000), 10**rng.randrange(5, 40) + rng.randrange(1000))) if big else rng.randrange(1, 3000)
  if style == "cancel" and rng.random() < 0.5: top = rng.choice((1003, 1001, 2000, 999))
  terms = []
  for i in range(k):
    e = max(0, top - (rng.randrange(0, 8) if style != "spread" else rng.randrange(0, top + 1)))
    c = rng.choice((1, 1, 1, -1, 2, 3, -3, 5, 7, -9, 9, rng.randrange(-50, 50) or 1, 10**20 + 1))
    terms.append((c, e))
  if style == "heavy":  # low powers with huge coefficients that nearly add up to nothing, and still outweigh the highest power
    hi = max(e for _, e in terms); g = rng.randrange(60, 260); m = rng.choice((1, -1)) * (base ** (g + rng.randrange(0, 200)) + rng.randrange(100))
    terms += [(m, max(0, hi - g)), (-m + rng.randrange(-3, 4), max(0, hi - g - rng.randrange(1, 4)))]
  if style == "cancel": # last term nearly cancels the rest
    s = sum(c * base ** (e - min(x for _, x in terms)) for c, e in terms) if max(e for _, e in terms) - min(e for _, e in terms) < 500 else 1
    terms.append((-s + rng.choice((0, 1, -1)), min(x for _, x in terms)))
  const = rng.choice((0, 0, 1, -1, rng.randrange(-1000, 1000), -base ** rng.randrange(1, 300), 10**300))
  terms = [t for t in terms if t[0]]
  v = None
  for c, e in terms:
    t = EI.exp_int(base, e) * c if e or True else c
    v = t if v is None else v + t
  v = const if v is None else v + const
  p = X.Poly(base, terms, const)
  d = 1
  if rng.random() < 0.25:
    d = rng.choice((2, 3, 5, 7, 4, 10)) if rng.random() < .6 else 2**rng.randrange(0, 12) * 3**rng.randrange(0, 9) * rng.choice((1, 5, 49, 10**4))
    tot = (sum(c * pow(base, e, d) for c, e in terms) + const) % d
    v = v - tot if tot else v; p.const -= tot
    if isinstance(v, int): v //= d
    else: v = v / d
    p.denom = d
  mx = max([e for _, e in terms], default=0)
  if mx * base.bit_length() < 60000:
    n = (sum(c * base ** e for c, e in terms) + p.const) // d
    return Num(v, ("x", n), f"{base}:{terms}+{p.const}/{d}")
  s, l = X.poly_log10(p)
  if s and l < 900:  # cannot happen with these sizes unless the leading terms cancel
    return None
  if s == 0: return None
  return Num(v, ("p", s, l), f"{base}:{terms}+{p.const}/{d}")

def gen_tower(rng):
  base = rng.choice((2, 3, 5, 7, 10))
  e = None
  for _ in range(20):
    ib = base if rng.random() < 0.5 else rng.choice((2, 3, 7))
    p = gen_poly(rng, ib, True)
    if p and p.key[0] in "xp" and not isinstance(p.v, int):
      s, l = klog(p.key)
      if s > 0 and l > 1010 and (p.key[0] == "p" or EI.try_eval(p.v) is None): e = (p, l); break
  if e is None: return None
  p, l = e
  v = EI.exp_int(base, p.v); c = rng.choice((1, 1, -1, 3, -7, 10**9, rng.randrange(1, 10**5)))
  v = v * c
  k = rng.choice((0, 0, 1, -5, 10**40)); v = v + k
  if k == 0 and rng.random() < 0.2 and not isinstance(v, int):
    pass
  # log10 log10 |v| = log10(E) + log10(log10 base), up to far below TOL
  lv = l + Decimal(base).log10().log10()
  return Num(v, ("t", 1 if c > 0 else -1, 2, lv), f"{c}*{base}^({p.text})+{k}")

def near_towers(rng):
  """Towers over (nearly) the same exponent: only base, factor and denominator decide."""
  for _ in range(20):
    p = gen_poly(rng, rng.choice((2, 3, 5, 7)), True)
    if p and not isinstance(p.v, int):
      s, l = klog(p.key)
      if s > 0 and l > 1010 and (p.key[0] == "p" or EI.try_eval(p.v) is None): break
  else: return []
  out = []
  for base in rng.sample((2, 3, 5, 6, 7, 10, 13), 4):
    k = rng.choice((1, 1, 1, 2, 3, 5)); c = rng.choice((1, 1, 2, 10**6)); j = rng.choice((0, 1, -7))
    v = EI.exp_int(base, p.v * k + j) * c
    if rng.random() < .3: v = v + rng.choice((1, -base, 10**50))
    out.append(Num(v, ("t", 1, 2, l + Decimal(k).log10() + Decimal(base).log10().log10()), f"{c}*{base}^({k}*({p.text})+{j})"))
  if rng.random() < .3: out = [Num(-a.v, ("t", -1, 2, a.key[3]), "-" + a.text) for a in out]
  return out

def round_tower(rng):
  """10^10^E with E a power of ten: iterated logarithms hit whole numbers."""
  E = 10**rng.choice((4, 10, 10, 10, 100, 12)) * rng.choice((1, 1, 1, 10, 3)); c = rng.choice((1, 1, -1))
  return Num(EI.exp_int(10, EI.exp_int(10, E)) * c, ("t", c, 2, Decimal(E)), f"{c}*10^10^{E}")

def check_pair(job, a, b):
  o, tie = order(a.key, b.key)
  if isinstance(a.v, int) and isinstance(b.v, int): return
  ctx = dict(a=a.text[:300], b=b.text[:300], truth=o)
  try: gt, ge, lt, le = a.v > b.v, a.v >= b.v, a.v < b.v, a.v <= b.v
  except EI.ExpIntException: job.count("compare_declined"); return
  job.count("comparisons")
  if gt and lt or not (ge or le) or (gt and not ge) or (lt and not le): raise Bad(f"inconsistent comparison gt={gt} ge={ge} lt={lt} le={le} {ctx}")
  if tie: job.count("near_ties"); return
  if (gt, ge, lt, le) != (o > 0, o >= 0, o < 0, o <= 0): raise Bad(f"order wrong gt={gt} ge={ge} lt={lt} le={le} {ctx}")

def check_one(job, a):
  s = a.key[1] if a.key[0] != "x" else (a.key[1] > 0) - (a.key[1] < 0)
  if not isinstance(a.v, int):
    job.count("signs_checked")
    v, inf = a.v, math.inf
    if not (v < inf and v <= inf and v > -inf and v >= -inf and inf > v and -inf < v) or v > inf or v >= inf or v < -inf or v <= -inf: raise Bad(f"not between the infinities: {a.text[:300]}")
    if EI.sign(a.v) != s: raise Bad(f"sign {EI.sign(a.v)} != {s} of {a.text[:300]}")
    ev = EI.try_eval(a.v)
    if ev is not None and a.key[0] == "x" and ev != a.key[1]: raise Bad(f"evaluates wrongly {a.text[:300]}")
    if ev is not None and a.key[0] != "x": raise Bad(f"evaluates a number too large to write {a.text[:300]}")
  # printed size
  t = H.big_int_approx_str(a.v)
  job.count("prints_checked")
  neg = s < 0
  body = t[1:] if t.startswith("-") else t
  if t.startswith("-") != neg: raise Bad(f"printed sign {t} of {a.text[:300]}")
  if body.startswith("~10^"):
    x = Decimal(body[4:].replace("_", ""))
    if a.key[0] == "t": raise Bad(f"printed {t} for a tower {a.text[:300]}")
    l = klog(a.key)[1]
    if abs(x - l) > Decimal("0.00002") + l * Decimal("1e-10"): raise Bad(f"printed {t}, true log10 {l:.6f} of {a.text[:300]}")
  elif body.startswith("~10↑↑"):
    x = float(body[5:].replace("_", ""))
    # undo the fractional tower
    h = int(x); top = x - h
    l = a.key[3] if a.key[0] == "t" else klog(a.key)[1]
    n = a.key[2] if a.key[0] == "t" else 1      # v = 10^^n[^l]
    l = float(l) if l < 10**300 else float(l.log10()); n += 0 if (a.key[3] if a.key[0] == "t" else klog(a.key)[1]) < 10**300 else 1
    while l >= 1: l = math.log10(l); n += 1
    want = n - 1 + l if True else 0
    if abs(x - want) > 0.0005: raise Bad(f"printed {t}, true height {want} of {a.text[:300]}")
  else:
    if a.key[0] != "x" or int(body.replace("_", "")) != abs(a.key[1]): raise Bad(f"printed {t} for {a.text[:300]}")

def work(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    base = rng.choice((2, 2, 2, 3, 3, 5, 6, 7, 10))
    nums = []
    for _ in range(10):
      try:
        with job_limit(10):
          x = rng.random()
          if x < 0.7: a = gen_poly(rng, base if rng.random() < 0.8 else rng.choice((2, 3, 7)), rng.random() < 0.7)
          elif x < 0.84: a = gen_tower(rng)
          elif x < 0.86: a = round_tower(rng)
          else:
            k = rng.choice((0, 1, -1, rng.randrange(-10**6, 10**6), base ** rng.randrange(1, 1200), -base ** rng.randrange(1, 1200), 10**rng.randrange(290, 1500), 10**400))
            a = Num(k, ("x", k), str(k)[:60] + f"[{k.bit_length()} bits]")
          if a is not None:
            check_one(job, a); nums.append(a)
            if a.key[0] != "x" : job.nontrivial(a.text)
      except EI.ExpIntException: job.count("declined")
      except V.JobTimeout: job.count("timed_out")
      except Bad as e: job.violation(str(e))
      except Exception as e: job.raised(e)
    try:
      with job_limit(20):
        extra = near_towers(rng)
        for a in extra: check_one(job, a)
        nums += extra
    except EI.ExpIntException: job.count("declined")
    except V.JobTimeout: job.count("timed_out")
    except Bad as e: job.violation(str(e))
    except Exception as e: job.raised(e)
    for a in nums:
      for b in nums:
        try: check_pair(job, a, b)
        except Bad as e: job.violation(str(e))
        except Exception as e: job.raised(e, a=a.text[:300], b=b.text[:300])
  if nums: job.sample([a.text[:120] for a in nums[:3]])

def ladder(job, seed, n):
  """Iterated exponentials of any height: growth is monotone in the height."""
  rng = random.Random(seed)
  for _ in range(n):
    xs = [rng.randrange(2, 3000)]
    base = rng.choice((2, 3, 5, 7)); steps = []
    try:
      for i in range(rng.randrange(2, 12)):
        c = rng.choice((1, 1, 3, 7, 13)); d = rng.choice((0, -1, 5, 1)); q = 1
        nxt = c * EI.exp_int(base, xs[-1]) + d
        steps.append((c, d)); xs.append(nxt)
      if rng.random() < 0.5: xs = [-x for x in xs][::-1]
      for i in range(len(xs)):
        for j in range(i + 1, len(xs)):
          job.count("comparisons"); job.count("ladder_comparisons")
          if not (xs[i] < xs[j] and xs[j] > xs[i] and xs[i] <= xs[j] and not xs[i] >= xs[j]): raise Bad(f"tower ladder out of order base={base} steps={steps} start={xs[0]} i={i} j={j}")
        if not isinstance(xs[i], int):
          d2 = xs[i] - xs[j] if i < j and False else None
      big = xs[-1] if not isinstance(xs[-1], int) and EI.sign(xs[-1]) > 0 else xs[0]
      if not isinstance(big, int):
        if not (-math.inf < big < math.inf): raise Bad(f"not between infinities base={base} steps={steps}")
      # differences of consecutive rungs have the sign of the larger
      for i in range(1, len(xs)):
        if isinstance(xs[i], int) or isinstance(xs[i - 1], int): continue
        try: s = EI.sign(xs[i] - xs[i - 1])
        except EI.ExpIntException: job.count("declined"); continue
        job.count("signs_checked")
        if s != 1: raise Bad(f"sign of difference of rungs base={base} steps={steps} i={i}")
      job.nontrivial((base, steps))
    except EI.ExpIntException: job.count("declined")
    except Bad as e: job.violation(str(e))
    except Exception as e: job.raised(e)

if __name__ == "__main__":
  ctx = Ctx("C16")
  ctx.pmap(work, [(ctx.rng.random(), ctx.n(60, 600)) for _ in range(ctx.n(48, 480))])
  ctx.pmap(ladder, [(ctx.rng.random(), ctx.n(60, 600)) for _ in range(16)])
  for k, m in (("comparisons", 50000), ("signs_checked", 5000), ("prints_checked", 5000), ("ladder_comparisons", 2000)): ctx.require(k, m)
  ctx.assumptions = ["two numbers beyond 10^250 whose logarithms agree to 1e-11 (relative) may compare as equal: the code orders huge numbers by a floating-point logarithm"]
  ctx.finish("comparisons", "sums of close, spread or cancelling powers, towers of height 2 with exact truth, ladders of any height; non-trivial when the number is too large to write out")
