"""C15: arithmetic on exponential-formula integers, observed through evaluation, remainders and text."""
import random, traceback
import vcheck_lib as V, bb, exptruth as X
from vcheck_lib import Ctx, job_limit, quiet
from exptruth import Node, I
import Exp_Int as EI, Math as M

SMALLP = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]
def rmod(rng, base=2):
  x = rng.random()
  if x < 0.25: return rng.randrange(2, 40)
  if x < 0.4: return 2 ** rng.randrange(1, 12)
  if x < 0.5: return base ** rng.randrange(1, 5)
  m = 1
  while True:
    p = rng.choice(SMALLP[:rng.choice((2, 3, 4, 25))])
    if m * p > 20000: return max(m, 2)
    m *= p
    if rng.random() < 0.2: return m

def smooth(m):
  for p in SMALLP:
    while m % p == 0: m //= p
  return m == 1

class Bad(Exception): pass

def observe(job, rng, v, node, base):
  """Compare everything the value shows with the truth."""
  x = node.exact()
  if isinstance(v, int):
    job.count("results_int")
    if x is not None:
      if v != x: raise Bad(f"integer result {str(v)[:80]} != {str(x)[:80]}")
    else:
      for _ in range(3):
        m = rmod(rng, base)
        if v % m != node.mod(m): raise Bad(f"integer result wrong mod {m}")
    return
  if not isinstance(v, EI.ExpInt): raise Bad(f"result has type {type(v)}")
  e = EI.try_eval(v)
  if e is not None:
    job.count("results_evaluated")
    if x is None:
      for m in (2**20, 3**9, 9699690, 10007, 97 * 89):
        if e % m != node.mod(m): raise Bad(f"evaluates to {str(e)[:80]}: wrong mod {m}")
    elif e != x: raise Bad(f"evaluates to {str(e)[:80]} != {str(x)[:80]}")
  elif x is not None and abs(x) < 10**250 and len(str(v)) < 600 and "^(" not in str(v):
    # every power in it is itself below 10^1000 or so only if exponents are small; do not insist
    job.count("small_but_not_evaluated")
  for _ in range(3):
    m = rmod(rng, base)
    try: r = v % m
    except (EI.ExpIntException, NotImplementedError): job.count("mod_declined"); continue
    job.count("remainders_checked")
    if r != node.mod(m): raise Bad(f"remainder mod {m} is {r}, truth {node.mod(m)}")
  s = str(v)
  if len(s) < 4000:
    t = X.text_node(s)
    job.count("formulas_checked")
    tx = t.exact()
    if tx is not None and x is not None:
      if tx != x: raise Bad("printed formula denotes another number")
    else:
      for m in (2**20, 3**9, 9699690, 10007, 97 * 89):
        if t.mod(m) != node.mod(m): raise Bad(f"printed formula differs mod {m}")

def work(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    base = rng.choice((2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 27, 36, 49, 64, 81, 97, 100))
    base2 = base
    pool = []   # (value, node, positive)
    log = []
    def add(v, node, pos, what):
      log.append(what); job.count("operations")
      observe(job, rng, v, node, base)
      if X and isinstance(v, EI.ExpInt):
        if v.depth <= 5 and len(str(v)) < 1500: pool.append((v, node, pos))
        if v.depth >= 2: job.nontrivial((seed, str(v)[:300]))
    def rint():
      return rng.choice((1, 2, 3, -1, -2, 5, 7, -7, 10, base, -base, base * base, 12, rng.randrange(-200, 200), rng.randrange(-10**6, 10**6), 10**30 + rng.randrange(100)))
    try:
      for i in range(rng.randrange(6, 22)):
        op = rng.choice(("new", "newt", "addi", "muli", "add", "sub", "mul", "div", "divmod", "neg", "rsub", "floordiv", "modexp", "pow2", "subself", "many")) if pool else "new"
        try:
          with job_limit(20):
            if op == "new":
              e = rng.choice((0, 1, 2, 3, 10, 40, 300, 998, 999, 1000, 1001, 1500, 3000, rng.randrange(2000)))
              add(EI.exp_int(base, e), Node("^", base, I(e)), True, ("exp", base, e))
              continue
            a, na, pa = rng.choice(pool); b, nb, pb = rng.choice(pool)
            if op == "newt":
              ex = na.exact()
              if (ex is not None and ex < 0) or (ex is None and not pa): continue
              if ex is not None and ex > 10**9 and False: continue
              add(EI.exp_int(base, a), Node("^", base, na), True, ("exp", base, str(a)[:80]))
            elif op == "addi":
              k = rint(); add(a + k if rng.random() < 0.5 else k + a, Node("+", na, I(k)), pa and (na.exact() is None or na.exact() + k > 0), ("addi", k))
            elif op == "rsub":
              k = rint(); add(k - a, Node("+", I(k), Node("*", I(-1), na)), False, ("rsub", k))
            elif op == "muli":
              k = rng.choice((rint(), rint(), 0)); add(a * k if rng.random() < 0.5 else k * a, Node("*", na, I(k)), pa and k > 0, ("muli", k))
            elif op == "add": add(a + b, Node("+", na, nb), pa and pb, ("add",))
            elif op == "sub": add(a - b, Node("+", na, Node("*", I(-1), nb)), False, ("sub",))
            elif op == "subself":
              k = rint(); c = a + k; add(c - a, I(k), k > 0, ("cancel", k))
            elif op == "mul": add(a * b, Node("*", na, nb), pa and pb, ("mul",))
            elif op == "many":  # a sum of many powers, then met by the other operations
              es = rng.sample(range(1, 400), rng.randrange(6, 30)); v = 0; nd = I(0)
              for e in es:
                c = rng.choice((1, 1, 2, 3, -1, -5, rng.randrange(1, 10**6))); v = v + EI.exp_int(base, e) * c; nd = Node("+", nd, Node("*", I(c), Node("^", base, I(e))))
              log.append(("sum", len(es)))
              if isinstance(v, int): continue
              observe(job, rng, v, nd, base); job.count("long_sums")
              y = rng.randrange(5)
              if y == 0: k = rint(); add(v * k, Node("*", nd, I(k)), False, ("sum*", k))
              elif y == 1: add(v + a, Node("+", nd, na), False, ("sum+",))
              elif y == 2: add(a - v, Node("+", na, Node("*", I(-1), nd)), False, ("-sum",))
              elif y == 3: add(v * a if rng.random() < .5 else a * v, Node("*", nd, na), False, ("sum*",))
              else:
                m = rmod(rng, base); 
                if smooth(m): r = nd.mod(m); add((v - r) / m, Node("/", Node("+", nd, I(-r)), m), False, ("sum/", m))
            elif op == "neg": add(-a, Node("*", I(-1), na), False, ("neg",))
            elif op == "pow2": add(a * a, Node("*", na, na), pa, ("square",))
            elif op in ("div", "divmod", "floordiv"):
              m = rng.choice((rmod(rng, base), rng.randrange(2, 12), base, base - 1 or 2))
              if m < 2 or not smooth(m): continue
              r = na.mod(m)
              q = Node("/", Node("+", na, I(-r)), m)
              if op == "div":
                neg = rng.random() < 0.2
                v = (a - r) / (-m if neg else m)
                add(v, Node("*", I(-1), q) if neg else q, pa and not neg, ("div", m))
              elif op == "divmod":
                dv, rr = divmod(a, m); job.count("operations")
                if rr != r: raise Bad(f"divmod remainder {rr} != {r} mod {m}")
                add(dv, q, pa, ("divmod", m))
              else: add(a // m, q, pa, ("floordiv", m))
            elif op == "modexp":
              # modulus given as a formula small enough to evaluate
              k = rng.randrange(1, 9); mv = EI.exp_int(base, k)
              if smooth(base):
                job.count("operations")
                r = a % mv
                if r != na.mod(base ** k): raise Bad(f"remainder by formula modulus {base}^{k}")
        except EI.ExpIntException as e: job.count("declined")
        except NotImplementedError: job.count("declined")
        except V.JobTimeout: job.count("ops_timed_out"); break
    except Bad as e:
      job.violation(str(e), base=base, history=[str(x) for x in log][-12:])
    except Exception as e:
      job.raised(e, base=base, history=[str(x) for x in log][-12:])
  job.sample({"base": base, "history": [str(x) for x in log][-6:]})

def math_work(job, seed, n):
  """The number-theory helpers everything rests on."""
  rng = random.Random(seed)
  for _ in range(n):
    b = rng.randrange(2, 120); m = rmod(rng, b); 
    if not smooth(m): continue
    k = rng.choice((rng.randrange(0, 14), rng.randrange(0, 3000), rng.randrange(10**30)))
    job.count("operations"); job.count("exp_mod_checked")
    if M.exp_mod(b, k, m) % m != pow(b, k, m): job.violation("exp_mod", b=b, k=k, m=m)
    x, y = rng.randrange(-500, 500), rng.randrange(1, 500)
    import math
    if M.gcd(x, y) != math.gcd(x, y): job.violation("gcd", x=x, y=y)
    if x and abs(M.lcm(abs(x), y)) != math.lcm(x, y): job.violation("lcm", x=x, y=y)
    n_ = rng.choice((rng.randrange(2, 4000), rng.randrange(2, 30) ** rng.randrange(1, 8)))
    r, p = M.int_pow(n_)
    if r ** p != n_ or (lambda q: any(round(q ** (1 / t)) ** t == q for t in range(2, q.bit_length() + 1)))(r):
      job.violation("int_pow is not the primitive root decomposition", n=n_, got=[r, p])
    ff = M.prime_factor(m); z = 1
    for p, kk in ff: z *= p ** kk
    if z != m: job.violation("prime_factor", m=m)

if __name__ == "__main__":
  ctx = Ctx("C15")
  ctx.pmap(work, [(ctx.rng.random(), ctx.n(60, 400)) for _ in range(ctx.n(64, 640))])
  ctx.pmap(math_work, [(ctx.rng.random(), ctx.n(1500, 20000)) for _ in range(16)])
  for k, m in (("remainders_checked", 20000), ("formulas_checked", 10000), ("results_evaluated", 2000), ("exp_mod_checked", 5000), ("long_sums", 500)): ctx.require(k, m)
  ctx.assumptions = ["bases >= 2, non-negative exponents, exact divisors (the domain the prover uses)", "moduli with prime factors <= 97 (others are refused by the code)"]
  ctx.finish("operations", "random operation histories over one base; non-trivial when the value is a tower of height >= 2")
