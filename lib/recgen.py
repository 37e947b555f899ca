"""Random records: numbers with their independent truth, statuses, and every other field by reflection."""
import random
import bb, ref, exptruth as X
import Exp_Int as EI, Halting_Lib as H
pb = bb.io_pb2

EDGE = [0, 1, 2, 127, 128, 255, 256, 999, 1000, 1001, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**62, 2**63 - 2, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 1, 10**18, 10**19, 10**30]
def rand_int(rng, neg=True):
  x = rng.random()
  if x < 0.3: n = rng.choice(EDGE)
  elif x < 0.5: n = rng.getrandbits(rng.randint(1, 70))
  elif x < 0.6: n = 2**rng.randint(1, 300) + rng.choice((-1, 0, 1))
  elif x < 0.7: n = 10**rng.randint(1, 400) + rng.choice((-1, 0, 1))
  elif x < 0.9: n = rng.getrandbits(rng.randint(1, 3000))
  else: n = rng.getrandbits(rng.randint(10000, 60000))   # beyond the decimal conversion limit
  return -n if neg and rng.random() < 0.3 else n

def rand_exp(rng, layers=None, neg=True):
  """(formula value, truth)"""
  base = rng.choice((2, 3, 5, 6, 7, 10, 12, 4, 9, rng.randint(2, 5000)))
  if layers is None: layers = rng.choice((1, 1, 1, 2, 2, 3, 5))
  v, n = None, None
  for i in range(rng.choice((1, 1, 2, 3)) if layers < 20 else 1):
    if layers <= 1: e = rng.choice((rng.randint(1, 50), rng.randint(900, 1100), rng.randint(1000, 10**6), 10**rng.randint(5, 30) + i)); en = X.I(e)
    else: e, en = rand_exp(rng, layers - 1 if layers < 20 or rng.random() < .99 else layers - 1, neg=False)
    c = rng.choice((1, 1, 1, 2, -1 if neg else 1, 3, 10**25 + 1, rng.randint(1, 10**6)))
    if not neg and i: c = abs(c)
    if isinstance(e, EI.ExpInt) and e.sign <= 0: return rand_exp(rng, 1, neg)
    t = EI.exp_int(base, e) * c; tn = X.Node("*", X.I(c), X.Node("^", base, en))
    v, n = (t, tn) if v is None else (v + t, X.Node("+", n, tn))
  k = rng.choice((0, 0, 1, -1, rng.randint(-10**6, 10**6), 2**64 + 3, -10**30))
  v = v + k; n = X.Node("+", n, X.I(k))
  if rng.random() < 0.3:
    d = rng.choice((2, 3, 5, 7, 15))
    r = n.mod(d); v = v - r; n = X.Node("+", n, X.I(-r))
    if isinstance(v, EI.ExpInt): v = v / d; n = X.Node("/", n, d)
  return v, n

def tall(rng, layers):
  base = rng.choice((2, 3, 5, 7, 10))
  v = EI.exp_int(base, rng.randint(1000, 5000)); n = X.Node("^", base, X.I(0)); e = v
  n = X.Node("^", base, X.I(EI.try_eval(v.terms[0].exponent)))
  for _ in range(layers):
    k = rng.choice((0, 0, 1, 7)); c = rng.choice((1, 1, 1, 11))
    v = EI.exp_int(base, v) * c + k; n = X.Node("+", X.Node("*", X.I(c), X.Node("^", base, n)), X.I(k))
  return v, n

def rand_value(rng, neg=True):
  """(value, truth node)"""
  if rng.random() < 0.6:
    n = rand_int(rng, neg); return n, X.I(n)
  for _ in range(20):
    try: v, n = rand_exp(rng, neg=neg)
    except (EI.ExpIntException, AssertionError, RecursionError): continue
    if neg or not isinstance(v, EI.ExpInt) and v >= 0 or isinstance(v, EI.ExpInt) and v.sign >= 0: return v, n
  return 5, X.I(5)

def layers_of(v):
  """Structure of a formula, iteratively (towers can be thousands of layers tall)."""
  out, todo, seen = [], [v], {}
  while todo:
    y = todo.pop()
    if not isinstance(y, EI.ExpInt): out.append(y); continue
    out.append((y.const, y.denom, [(t.base, t.coef) for t in y.terms]))
    todo += [t.exponent for t in y.terms]
    if len(out) > 40000: break
  return out

MODS = (2**20, 3**9, 10007, 97 * 89, 9699690)
def value_diff(got, v, truth):
  """None, or how the value read back differs from the one stored."""
  if isinstance(v, int):
    return None if type(got) is int and got == v else f"stored {str(v)[:60] if abs(v) < 10**4000 else hex(v)[:60]}, read {type(got).__name__}"
  if not isinstance(got, EI.ExpInt):
    x = truth.exact()
    return None if x is not None and got == x else f"stored a formula, read {type(got).__name__}"
  if str(got) != str(v): return f"formula read back as {str(got)[:100]} was {str(v)[:100]}"
  if layers_of(got) != layers_of(v): return "structure of the formula differs"
  if got.sign != v.sign or got.tower_value != v.tower_value: return f"size read back {got.tower_value} was {v.tower_value}"
  for m in MODS:
    try: r = got % m
    except (EI.ExpIntException, NotImplementedError, RecursionError): continue
    if r != truth.mod(m): return f"value read back is {r} mod {m}, truth {truth.mod(m)}"
  x = truth.exact(); e = EI.try_eval(got)
  if x is not None and e is not None and e != x: return "evaluates to a different number"
  return None

def fill(rng, msg, p, truths, path=""):
  """Set a random subset of the fields of a message (recursively)."""
  groups = {}
  for f in msg.DESCRIPTOR.fields:
    if f.containing_oneof: groups.setdefault(f.containing_oneof.name, []).append(f)
    else: groups[f.name] = [f]
  for g in groups.values():
    if rng.random() > p: continue
    f = rng.choice(g); name = f.name; here = path + "." + name
    if f.message_type is not None and f.message_type.name == "BigInt" and not repeated(f):
      v, n = rand_value(rng); H.set_big_int(getattr(msg, name), v); truths[here[1:]] = (v, n)
    elif f.message_type is not None and f.message_type.name in ("TuringMachine", "ExpInt", "ExpTerm"): continue
    elif repeated(f):
      if f.message_type is None: getattr(msg, name).extend(scalar(rng, f) for _ in range(rng.randint(0, 4)))
      else:
        for _ in range(rng.randint(0, 2)): fill(rng, getattr(msg, name).add(), p, {}, here)
    elif f.message_type is not None:
      sub = getattr(msg, name); sub.SetInParent(); fill(rng, sub, p, truths, here)
    else: setattr(msg, name, scalar(rng, f))

def repeated(f):
  try: return f.is_repeated
  except AttributeError: return f.label == f.LABEL_REPEATED

def scalar(rng, f):
  t = f.cpp_type
  if t == f.CPPTYPE_BOOL: return rng.random() < 0.7
  if t == f.CPPTYPE_STRING: return bytes(rng.randrange(256) for _ in range(rng.randint(0, 20))) if f.type == f.TYPE_BYTES else "".join(rng.choice("ab(, )\n\0é") for _ in range(rng.randint(0, 20)))
  if t in (f.CPPTYPE_FLOAT, f.CPPTYPE_DOUBLE): return rng.choice((0.5, 1e-3, 123.25, 1e30, 0.1))
  if t == f.CPPTYPE_ENUM: return rng.choice(f.enum_type.values).number
  bits = 31 if t in (f.CPPTYPE_INT32, f.CPPTYPE_UINT32) else 63
  n = rng.choice((1, rng.getrandbits(rng.randint(1, bits)), 2**bits - 1))
  return -n if t in (f.CPPTYPE_INT32, f.CPPTYPE_INT64) and rng.random() < 0.5 else n

def get_path(msg, path):
  for x in path.split("."): msg = getattr(msg, x)
  return msg

def make(tab):
  q = [(s, k, *t) for s, row in enumerate(tab) for k, t in enumerate(row) if t]
  return bb.TMm.tm_from_quintuples(q, states=list(range(len(tab))), symbols=list(range(len(tab[0]))))

def rand_machine(rng, big=None):
  if big is None: big = rng.random() < 0.15
  ns, nk = (rng.randint(7, 30), rng.randint(2, 12)) if big else (rng.randint(1, 6), rng.randint(2, 5))
  return ref.random_tm(rng, ns, nk, rng.choice((0, 0.1, 0.3)), rng.choice((0, 0.1, 0.5)))

def rand_record(rng, truths=None, p=0.5, big=None):
  tab = rand_machine(rng, big)
  rec = bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(make(tab), allow_no_halt=rng.random() < 0.3))
  t = {} if truths is None else truths
  fill(rng, rec.proto, rng.choice((0.1, 0.4, 0.8)) if p is None else p, t)
  return rec

def status(rng, proto, kind=None):
  """Give a record a consistent verdict through the library's own setters; returns (kind, facts)."""
  kind = kind or rng.choice(("halt", "halt", "halt_noscore", "halt_raw", "inf", "inf_q", "inf_nq", "inf_q_raw", "unknown"))
  st = proto.status; st.Clear(); F = {}
  if kind.startswith("halt"):
    steps = rand_value(rng, neg=False); score = rand_value(rng, neg=False)
    if kind == "halt_raw": st.halt_status.is_decided = st.halt_status.is_halting = True   # decided without step count
    else:
      H.set_halting(st, steps[0], None if kind == "halt_noscore" else score[0], rng.randrange(5), rng.randrange(3)); F["steps"] = steps
      if kind == "halt": F["score"] = score
  elif kind.startswith("inf"):
    H.set_not_halting(st, rng.choice(list(pb.InfReason.values())))
    if kind == "inf_nq": H.set_not_quasihalting(st)
    if kind == "inf_q_raw": st.quasihalt_status.is_decided = st.quasihalt_status.is_quasihalting = True
    if kind == "inf_q":
      q = rand_value(rng, neg=False)
      H.set_inf_recur(st, [0], {0: 1, 1: q[0] - 1 if isinstance(q[0], int) and q[0] > 0 else 5}); F["q"] = q if isinstance(q[0], int) and q[0] > 0 else (6, X.I(6))
  return kind, F
