"""Independent semantics of the validator's counts, configurations and rules, evaluated at concrete assignments."""
import re
class TooBig(Exception): pass
class Bad(Exception): pass                     # text we cannot read
class Falls(Exception): pass                   # the machine leaves the part of the tape the rule is about
class Circular(Exception): pass

LETTERS = "nabcdefghijklmopqrstuvwxyz"
CAP = 10 ** 12

# expressions: ("v", {var: coef}, const) | ("r", var, body, reps, base) | "inf"
def V(s):
  c = {}; k = 0
  for p in s.split("+"):
    m = re.fullmatch(r"(\d*)(<x\d+>|[a-z])|(\d+)", p)
    if not m: raise Bad(s)
    if m[3] is not None: k += int(m[3])
    else: c[m[2]] = c.get(m[2], 0) + int(m[1] or 1)
  return ("v", c, k)
def enc(e):
  """For the harness."""
  if e == "inf": return "inf"
  if e[0] == "v":
    t = [f"{c}{x}" for x, c in e[1].items()] + ([str(e[2])] if e[2] or not e[1] else [])
    return "v " + "+".join(t)
  return "r %s %s %s %s" % (e[1], enc(e[2]), enc(e[3]), enc(e[4]))
def ev(e, env, fuel=None):
  if e == "inf": return e
  if fuel is None: fuel = [20000]
  fuel[0] -= 1
  if fuel[0] < 0: raise TooBig()
  if e[0] == "v":
    r = e[2] + sum(c * env[x] for x, c in e[1].items())
    if r > CAP: raise TooBig()
    return r
  n = ev(e[3], env, fuel); r = ev(e[4], env, fuel)
  if n > 5000: raise TooBig()
  for _ in range(n): r = ev(e[2], {**env, e[1]: r}, fuel)
  return r

class P:
  """Parser of the printed form."""
  def __init__(self, s): self.s = s; self.i = 0
  def peek(self): return self.s[self.i:self.i + 1]
  def eat(self, t):
    if not self.s.startswith(t, self.i): raise Bad(self.s)
    self.i += len(t)
  def var(self):
    m = re.compile(r"<x\d+>|[a-z]").match(self.s, self.i)
    if not m: raise Bad(self.s)
    self.i = m.end(); return m[0]
  def expr(self):
    if self.peek() == "(":
      self.eat("("); e = self.rec(); self.eat(")"); return e
    m = re.compile(r"inf|(?:\d+(?:<x\d+>|[a-z])?|<x\d+>|[a-z])(?:\+(?:\d+(?:<x\d+>|[a-z])?|<x\d+>|[a-z]))*").match(self.s, self.i)
    if not m: raise Bad(self.s)
    self.i = m.end(); return "inf" if m[0] == "inf" else V(m[0])
  def func(self):
    self.eat("λ"); x = self.var(); self.eat("."); return x, self.expr()
  def rec(self):
    if self.peek() == "(":
      self.eat("("); x, b = self.func(); self.eat(")"); self.eat("^"); n = self.expr()
    else: (x, b), n = self.func(), V("1")
    self.eat(" "); return ("r", x, b, n, self.expr())
def parse(s):
  p = P(s); e = p.expr()
  if p.i != len(s): raise Bad(s)
  return e
def parse_func(s):
  p = P(s); f = p.func()
  if p.i != len(s): raise Bad(s)
  return f

# configurations: (left blocks, right blocks, state, dir); a block is (symbols, expr), in the order printed
def parse_config(s):
  i = 0; side = [[], []]; cur = 0; st = None
  while i < len(s):
    if s[i] == " ": i += 1; continue
    m = re.compile(r"<(.)(?= |$)|(.)>(?= |$)").match(s, i)
    if m:
      if st: raise Bad(s)
      st = (m[1] or m[2], "L" if m[1] else "R"); cur = 1; i = m.end(); continue
    m = re.compile(r"[0-9]+").match(s, i)
    if not m: raise Bad(s)
    i = m.end(); e = V("1")
    if s[i:i + 1] == "^":
      p = P(s); p.i = i + 1; e = p.expr(); i = p.i
    side[cur].append((m[0], e))
  if not st: raise Bad(s)
  return side[0], side[1], st[0], st[1]
def config_vars(c): return set().union(*[free(e) for b in c[:2] for _, e in b]) if c[0] or c[1] else set()
def free(e):
  if e == "inf": return set()
  if e[0] == "v": return set(e[1])
  return (free(e[2]) - {e[1]}) | free(e[3]) | free(e[4])
def enc_config(c):
  """-> text for the harness: counts which are not sums go in by substitution."""
  used = config_vars(c) | {e[1] for b in c[:2] for _, e in b if e[0] == "r"}; spare = [x for x in LETTERS[::-1] if x not in used]; sub = []
  def blk(b):
    s, e = b
    if e == "inf": return s + "^inf"
    if e[0] == "v": return s + ("" if e == V("1") else "^" + enc(e)[2:])
    x = spare.pop(); sub.append(f"{x} {enc(e)}"); return f"{s}^{x}"
  l = " ".join(map(blk, c[0])); r = " ".join(map(blk, c[1]))
  h = f"<{c[2]}" if c[3] == "L" else f"{c[2]}>"
  return " ".join(x for x in (l, h, r) if x) + "@" + ";".join(sub)

class Conc:
  """A concrete (sub)configuration: two stacks, the head between them, each end bounded or blank for ever."""
  def __init__(self, c, env, cap=20000):
    self.s, self.d = c[2], c[3]; self.st = [[], []]; self.inf = [False, False]
    for k in (0, 1):
      bl = c[k] if k == 0 else [(s[::-1], e) for s, e in reversed(c[k])]
      for j, (s, e) in enumerate(bl):
        n = ev(e, env)
        if n == "inf":
          if set(s) != {"0"} or j: raise Bad("inf")
          self.inf[k] = True; continue
        if n * len(s) + len(self.st[k]) > cap: raise TooBig()
        self.st[k] += [int(x) for x in s] * n
  def key(self):
    st = [list(x) for x in self.st]
    off = 0
    if self.d == "L":                              # the scanned cell is the first on the right
      if st[0]: st[1].append(st[0].pop())
      elif self.inf[0]: st[1].append(0)
      else: off = 1
    elif not st[1]:
      if self.inf[1]: st[1].append(0)
      else: off = 2
    for k in (0, 1):
      if self.inf[k]:
        i = 0
        while i < len(st[k]) - k and st[k][i] == 0: i += 1
        st[k] = st[k][i:]
        if k == 1 and not st[k]: st[k] = [0]
    return (self.s, off, tuple(st[0]), tuple(st[1]), tuple(self.inf))
  def step(self, tm):
    k = 0 if self.d == "L" else 1
    if self.s == "Z": raise Falls("halted")
    if self.st[k]: a = self.st[k].pop()
    elif self.inf[k]: a = 0
    else: raise Falls("leaves the configuration")
    t = tm[ord(self.s) - 65][a] if ord(self.s) - 65 < len(tm) and a < len(tm[0]) else None
    if t is None: raise Falls("undefined transition")
    w, d, s = t
    self.s, self.d = s, d; self.st[1 if d == "L" else 0].append(w)

def parse_tm(s): return [[None if r[i:i + 3] == "---" else (int(r[i]), r[i + 1], r[i + 2]) for i in range(0, len(r), 3)] for r in s.split("_")]

# rules: dict(init, final, kind "S"/"I", base, steps); steps: ("T", n) | ("R", id, {var: expr}) | ("I", {var: expr})
def enc_steps(st):
  def sub(m): return ";".join(f"{x} {enc(e)}" for x, e in m.items())
  return ",".join(f"T{s[1]}" if s[0] == "T" else f"R{s[1]}:{sub(s[2])}" if s[0] == "R" else f"I:{sub(s[1])}" for s in st)
def enc_rule(r):
  return "|".join([enc_config(r["init"]), enc_config(r["final"]), r["kind"]] + ([enc_steps(r["base"])] if r["kind"] == "I" else []) + [enc_steps(r["steps"])])
def proof_steps(rules, i, env, fuel, depth=0):
  """How many machine steps the proof stands for, at this assignment."""
  if depth > 400: raise Circular()
  fuel[0] -= 1
  if fuel[0] < 0: raise TooBig()
  r = rules[i]; st = r["steps"]
  if r["kind"] == "I":
    if env["n"] == 0: st = r["base"]; env = {**env, "n": 0}
    else: env = {**env, "n": env["n"] - 1}
  t = 0
  for s in st:
    if s[0] == "T": t += s[1]
    else:
      j, m = (s[1], s[2]) if s[0] == "R" else (i, s[1])
      if j >= len(rules): raise Circular()
      t += proof_steps(rules, j, {**env, **{x: ev(e, env) for x, e in m.items()}}, fuel, depth + 1)
    if t > 10 ** 7: raise TooBig()
  return t

def holds(tm, rules, i, env, maxsteps=60000):
  """True / (False, why): is rule i true at env? TooBig if not decided."""
  a = Conc(rules[i]["init"], env); z = Conc(rules[i]["final"], env).key()
  try: n = proof_steps(rules, i, env, [20000])
  except (Circular, RecursionError): n = None
  if n is None:
    for t in range(maxsteps):
      if a.key() == z: return True
      try: a.step(tm)
      except Falls as e: return False, f"never reaches the final configuration ({e} after {t} steps)"
    return False, f"final configuration not reached in {maxsteps} steps, and the proof is circular"
  if n > maxsteps: raise TooBig()
  for t in range(n):
    try: a.step(tm)
    except Falls as e: return False, f"{e} after {t} of {n} steps"
  if a.key() != z: return False, f"after {n} steps: {a.key()} instead of {z}"
  return True
