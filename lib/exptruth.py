"""Independent truth for numbers built from exponentials: a DAG of operations, evaluated
exactly (when it fits), modulo any m, or as a bracketed logarithm."""
import ast, math
from functools import lru_cache

MAXBITS = 300_000

class Node:
  """op: 'i' int | '+' | '*' | '/' (exact division by int) | '^' (int base, node exponent >= 0)"""
  __slots__ = ("op", "a", "b", "_x", "_bits")
  def __init__(self, op, a, b=None):
    self.op, self.a, self.b = op, a, b
    self._x = None; self._bits = None
    if op == "i": self._x = a
    elif op == "+":
      x, y = a.exact(), b.exact()
      if x is not None and y is not None: self._x = x + y
    elif op == "*":
      x, y = a.exact(), b.exact()
      if x == 0 or y == 0: self._x = 0
      elif x is not None and y is not None and x.bit_length() + y.bit_length() < 2 * MAXBITS: self._x = x * y
    elif op == "/":
      x = a.exact()
      if x is not None:
        q, r = divmod(x, b)
        assert r == 0
        self._x = q
    elif op == "^":
      e = b.exact()
      if e is not None:
        assert e >= 0
        if e * a.bit_length() < MAXBITS: self._x = a ** e
  def exact(self): return self._x
  def mod(self, m):
    if self._x is not None: return self._x % m
    if m == 1: return 0
    if self.op == "+": return (self.a.mod(m) + self.b.mod(m)) % m
    if self.op == "*": return (self.a.mod(m) * self.b.mod(m)) % m
    if self.op == "/":
      r = self.a.mod(m * abs(self.b))
      q, z = divmod(r, abs(self.b))
      assert z == 0, "not divisible"
      return (q if self.b > 0 else -q) % m
    if self.op == "^":
      e = self.b.exact()
      if e is not None: return pow(self.a, e, m)
      ph = phi(m)   # exponent is astronomically larger than m: generalised Euler
      return pow(self.a, self.b.mod(ph) + ph * (1 + m.bit_length()), m)

def I(n): return Node("i", n)

@lru_cache(maxsize=None)
def phi(m):
  r, n, p = m, m, 2
  while p * p <= n:
    if n % p == 0:
      while n % p == 0: n //= p
      r -= r // p
    p += 1
  if n > 1: r -= r // n
  return r

def text_node(s):
  """Independent reading of a printed formula."""
  t = ast.parse(s.replace("^", "**"), mode="eval").body
  def go(x):
    if isinstance(x, ast.Constant): return I(x.value)
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub): return Node("*", I(-1), go(x.operand))
    if isinstance(x, ast.BinOp):
      l, r = go(x.left), go(x.right)
      if isinstance(x.op, ast.Add): return Node("+", l, r)
      if isinstance(x.op, ast.Mult): return Node("*", l, r)
      if isinstance(x.op, ast.Div): return Node("/", l, r.exact())
      if isinstance(x.op, ast.Pow): return Node("^", l.exact(), r)
    raise ValueError("unreadable formula " + s[:200])
  return go(t)

# --------------------------------------------------------------- sums of one-base exponentials
class Poly:
  """(sum c_i * b^e_i + k) / d with arbitrary exact integers e_i (maybe thousands of digits)."""
  def __init__(self, base, terms, const=0, denom=1):
    self.base, self.terms, self.const, self.denom = base, list(terms), const, denom
  def lead(self):
    """(sign, c, e): value*denom = c*b^e*(1+eps) with |eps| < 2^-200, exact sign."""
    d = {}
    for c, e in self.terms + ([(self.const, 0)] if self.const else []): d[e] = d.get(e, 0) + c
    ts = sorted(((e, c) for e, c in d.items() if c), reverse=True)
    acc = 0; at = None
    for i, (e, c) in enumerate(ts):
      if acc == 0: acc, at = c, e
      else:
        gap = at - e
        rest = sum(abs(x) for _, x in ts[i:])
        if gap * (self.base.bit_length() - 1) > rest.bit_length() + 220 : break
        acc = acc * self.base ** gap + c; at = e
    return ((acc > 0) - (acc < 0), abs(acc), at)

from decimal import Decimal, getcontext
getcontext().prec = 60
def ilog10(n):
  """log10 of a positive int as Decimal."""
  sh = max(0, n.bit_length() - 400)
  return Decimal(n >> sh).log10() + sh * LOG2
LOG2 = Decimal(2).log10()
_LOGS = {}
def plog10(b, prec):
  k = (b, prec)
  if k not in _LOGS:
    old = getcontext().prec; getcontext().prec = prec
    _LOGS[k] = Decimal(b).log10(); getcontext().prec = old
  return _LOGS[k]
def poly_log10(p):
  """(sign, Decimal log10|value|) with relative error < 1e-50."""
  s, c, e = p.lead()
  if s == 0: return 0, None
  prec = 60 + len(str(e.bit_length()))
  v = ilog10(c) - ilog10(p.denom) + Decimal(e) * plog10(p.base, 80)
  return s, v
