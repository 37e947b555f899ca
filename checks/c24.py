"""C24: the Rust rule validator: whatever it accepts is replayed, step by step, at concrete assignments."""
import collections, os, random, re, shutil, subprocess, sys, tempfile
import vcheck_lib as V, rustref as R, rustbuild
from vcheck_lib import Ctx, job_limit

VARS = "nabxy"
class Proc:
  def __init__(self, exe): self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf8")
  def ask(self, *f):
    line = "\t".join(f); assert "\n" not in line
    self.p.stdin.write(line + "\n"); self.p.stdin.flush(); a = self.p.stdout.readline()
    if not a: raise V.Inconclusive("the harness died on " + line[:500])
    if "harness: bad" in a: raise V.Inconclusive(a)
    return a.rstrip("\n")
  def close(self): self.p.stdin.close(); self.p.wait()

def envs(rng, k=6, hi=4): return [{x: rng.choice((0, 0, 1, 1, 2, rng.randint(0, hi))) for x in R.LETTERS} for _ in range(k)]
def refused(job, ans, **d):
  """Not accepted. A panic other than the overflow check is a crash."""
  if ans.startswith("PANIC") and "overflow" not in ans and "index out of bounds" not in ans: job.violation("the validator panics on well-formed input", answer=ans[:300], **d)
  elif ans.startswith("PANIC"): job.count("overflow_or_alphabet_panics")
  return not ans.startswith("OK")

# ---- counts ----
def vs(rng, vars=VARS):
  e = collections.OrderedDict((x, rng.randint(1, 3)) for x in rng.sample(vars, rng.choice((0, 1, 1, 1, 2, 2, 3))))
  return ("v", dict(e), rng.choice((0, 0, 1, 2, 5)))
def gen(rng, depth):
  if depth == 0 or rng.random() < .3: return vs(rng)
  x = rng.choice(VARS); body = gen(rng, depth - 1)
  if rng.random() < .8 and body[0] == "v": body = ("v", {**body[1], x: rng.randint(1, 2)}, body[2])
  return ("r", x, body, vs(rng) if rng.random() < .85 else gen(rng, depth - 1), gen(rng, depth - 1))
def rename(e, a, b):
  """Naive renaming of the free variable a (wrong when b is in the way: that is the point)."""
  if e[0] == "v":
    c = dict(e[1]); k = c.pop(a, 0)
    if k: c[b] = c.get(b, 0) + k
    return ("v", c, e[2])
  return ("r", e[1], e[2] if e[1] == a else rename(e[2], a, b), rename(e[3], a, b), rename(e[4], a, b))
def plus1(e): return ("v", e[1], e[2] + 1)
def cousin(rng, e):
  """An expression which looks like e, and may or may not be equal to it."""
  k = rng.randrange(8)
  if e[0] == "v":
    if k == 0: return plus1(e)
    if k == 1 and e[1]: x = rng.choice(sorted(e[1])); return rename(e, x, rng.choice(VARS))
    if k == 2: x = rng.choice("zwn"); return ("r", x, ("v", {x: 1}, 0), vs(rng), e)             # identity
    if k == 3: x = rng.choice(VARS); return ("r", x, R.V(x), R.V("1"), e)
    if k == 4 and e[1]: x = rng.choice(sorted(e[1])); return ("r", x, e, R.V("1"), R.V(x))
    return e
  _, x, b, n, s = e
  if k == 0: y = rng.choice(VARS + "z"); return ("r", y, rename(b, x, y), n, s)
  if k == 1 and n[0] == "v" and n[2]:                                 # some repeats moved into the base, and not always as many
    j = rng.randint(1, min(3, n[2])); i = j if rng.random() < .5 else rng.randint(1, 4); t = s
    if rng.random() < .5: t = ("r", x, b, R.V(str(i)), t)
    else:
      for _ in range(i): t = ("r", x, b, R.V("1"), t)
    return ("r", x, b, ("v", n[1], n[2] - j), t)
  if k == 2 and n[0] == "v": return ("r", x, b, plus1(n), s)
  if k == 3: return ("r", x, cousin(rng, b), n, s)
  if k == 4: return ("r", x, b, cousin(rng, n), s)
  if k == 5: return ("r", x, b, n, cousin(rng, s))
  if k == 6: y = rng.choice(VARS); return ("r", y, ("r", x, b, n, R.V(y)), R.V("1"), s)          # beta expansion
  return e

def same(job, what, got, f, rng, **data):
  """Text `got` against the value f(env) at several assignments."""
  try: g = R.parse(got)
  except R.Bad: job.violation(what + ": unreadable result", got=got, **data); return
  for env in envs(rng):
    try: want, have = f(env), R.ev(g, env)
    except R.TooBig: job.count("too_big"); continue
    job.count("count_values")
    if want != have: job.violation(what + ": wrong value", got=got, env={k: v for k, v in env.items() if k in VARS + "z"}, want=want, have=have, **data); return

def counts(job, seed, exe, n):
  rng = random.Random(seed); p = Proc(exe)
  for _ in range(n):
    op = rng.choice(("subst", "subst", "add", "sub", "sub", "sub", "dec", "apply", "compose", "parse"))
    a, b = gen(rng, rng.choice((0, 1, 1, 2))), gen(rng, rng.choice((0, 1, 1)))
    A, B = R.enc(a), R.enc(b); d = dict(a=A, b=B)
    job.count("count_ops")
    if op == "subst":
      m = {x: gen(rng, rng.choice((0, 0, 1, 1, 2))) for x in rng.sample(VARS, rng.randint(1, 3))}
      s = ";".join(f"{x} {R.enc(e)}" for x, e in m.items()); r = p.ask("subst", A, s)
      if refused(job, r, a=A, subst=s): job.count("subst_refused"); continue
      same(job, "substitution", r[3:], lambda env: R.ev(a, {**env, **{x: R.ev(e, env) for x, e in m.items()}}), rng, a=A, subst=s)
      if a[0] == "r": job.nontrivial(("subst", A, s))
    elif op in ("add", "sub"):
      if op == "sub": b = cousin(rng, a) if rng.random() < .8 else b; B = d["b"] = R.enc(b)
      if rng.random() < .05: A, a = "inf", "inf"
      if rng.random() < .05: B, b = "inf", "inf"
      r = p.ask(op, A, B)
      if refused(job, r, op=op, **d): continue
      job.count(op + "_answers")
      if "inf" in (a, b):
        w = "inf" if op == "add" or a == "inf" != b else "0" if a == b else None
        if r[3:] != w: job.violation(op + " with infinity", got=r, **d)
        continue
      same(job, op, r[3:], lambda env: R.ev(a, env) + (R.ev(b, env) if op == "add" else -R.ev(b, env)), rng, **d)
      if "r" in (a[0], b[0]): job.nontrivial((op, A, B))
    elif op == "dec":
      r = p.ask("dec", A)
      if not refused(job, r, op=op, **d): same(job, "decrement", r[3:], lambda env: R.ev(a, env) - 1, rng, **d)
    elif op == "apply":
      x = rng.choice(VARS); r = p.ask("apply", f"{x} {A}", B)
      if not refused(job, r, op=op, **d): same(job, "function application", r[3:], lambda env: R.ev(a, {**env, x: R.ev(b, env)}), rng, x=x, **d)
    elif op == "compose":
      x, y = rng.choice(VARS), rng.choice(VARS); r = p.ask("compose", f"{x} {A}", f"{y} {B}")
      if refused(job, r, op=op, **d): continue
      try: z, c = R.parse_func(r[3:])
      except R.Bad: job.violation("composition: unreadable", got=r, **d); continue
      for env in envs(rng):
        v = rng.randint(0, 4)
        try: w, g = R.ev(b, {**env, y: R.ev(a, {**env, x: v})}), R.ev(c, {**env, z: v})
        except R.TooBig: continue
        job.count("count_values")
        if w != g: job.violation("composition of functions: wrong value", x=x, y=y, got=r, arg=v, env={k: env[k] for k in VARS}, want=w, have=g, **d); break
    else:
      good = rng.random() < .5; s = R.enc(vs(rng))[2:]
      if not good:
        k = rng.randrange(4); i = rng.randint(0, len(s)); s = s[:i] + rng.choice("+ nx5-*^A.") + s[i:] if k else s + rng.choice(("x", "5", "nn", "!", " "))
      r = p.ask("parse", s); job.count("parses")
      try: e = R.V(s)
      except R.Bad: e = None
      if e is None:
        if r.startswith("OK"): job.violation("a malformed count is read as something else", text=s, got=r)
      elif refused(job, r, op="parse", text=s): job.violation("a well-formed count is refused", text=s, got=r)
      else: same(job, "parse", r[3:], lambda env: R.ev(e, env), rng, text=s)
  p.close()

# ---- configurations ----
def count(rng, vars="nabx", rec=.1):
  if rng.random() < rec: return gen(rng, 1)
  return rng.choice((R.V("1"), R.V("1"), R.V(str(rng.randint(0, 4) if rng.random() < .9 else rng.randint(5, 400))), R.V(rng.choice(vars)), R.V(f"{rng.choice(vars)}+{rng.randint(1, 3)}"), vs(rng, vars)))
def side(rng, nk, left, k=None, rec=.1):
  b = [("".join(str(rng.randrange(nk)) for _ in range(rng.choice((1, 1, 1, 2, 3)) if rng.random() < .9 else rng.randint(4, 20))), count(rng, rec=rec)) for _ in range(rng.randint(0, 3) if k is None else k)]
  if rng.random() < .4: b = [("0", "inf")] + b if left else b + [("0", "inf")]
  return b
def conf(rng, ns, nk, rec=.1): return side(rng, nk, True, rec=rec), side(rng, nk, False, rec=rec), chr(65 + rng.randrange(ns)), rng.choice("LR")
def vary(rng, c):
  """Rewrite a configuration; often into an equal one."""
  c = [list(c[0]), list(c[1]), c[2], c[3]]
  for _ in range(rng.randint(1, 3)):
    k = rng.randrange(2)
    if not c[k]: continue
    i = rng.randrange(len(c[k])); s, e = c[k][i]; o = rng.randrange(9)
    if e == "inf":
      if o < 4: c[k].insert(i + (1 - k), ("0", R.V(rng.choice("12n"))))
      continue
    if o == 0 and e[0] == "v" and not e[1]: c[k][i:i + 1] = [(s, R.V("1"))] * e[2]
    elif o == 1 and e[0] == "v" and e[2]: c[k][i:i + 1] = [(s, ("v", e[1], e[2] - 1)), (s, R.V("1"))]
    elif o == 2 and e == R.V("1"): c[k][i:i + 1] = [(x, e) for x in s]
    elif o == 3: c[k].insert(i, (rng.choice("012"), R.V("0")))
    elif o == 4: c[k][i] = (s, cousin(rng, e))
    elif o == 5 and len(s) > 1 and e[0] == "v" and e[2]: c[k][i:i + 1] = [(s[0], R.V("1")), (s[1:] + s[0], ("v", e[1], e[2] - 1)), (s[1:], R.V("1"))]
    elif o == 6: c[k][i] = (s[:-1] + rng.choice("012"), e)
    elif o == 8 and e[0] == "v" and e[2] and rng.random() < .5: c[k][i] = (s, ("v", e[1], e[2] - 1))
    elif o == 8: del c[k][i]
    elif o == 7 and i: c[k][i - 1:i + 1] = [c[k][i], c[k][i - 1]] if c[k][i - 1][1] != "inf" else c[k][i - 1:i + 1]
  return tuple(c)
def machine(rng):
  ns, nk = rng.randint(1, 4), rng.choice((2, 2, 3, 4))
  t = [["---" if rng.random() < .04 else "%d%s%s" % (rng.randrange(nk), rng.choice("LR"), "Z" if rng.random() < .04 else chr(65 + (i if rng.random() < .35 else rng.randrange(ns)))) for _ in range(nk)] for i in range(ns)]
  return "_".join("".join(r) for r in t), ns, nk

def concrete(c): return not R.config_vars(c) and all(e == "inf" or e[0] == "v" for b in c[:2] for _, e in b)
def plain(c): return concrete(c) and all(len(s) == 1 for b in c[:2] for s, _ in b)
def split(whole, winf, part, pinf):
  """whole == rest + part (part next to the head) -> (rest, rest's end is blank for ever), or None"""
  if pinf:
    if not winf: return None
    a, b = list(whole), list(part)
    while a and a[0] == 0: a.pop(0)
    while b and b[0] == 0: b.pop(0)
    return ([], False) if a == b else None
  w = list(whole)
  if winf and len(w) < len(part): w = [0] * (len(part) - len(w)) + w
  if len(part) > len(w) or w[len(w) - len(part):] != list(part): return None
  return w[:len(w) - len(part)], winf
def configs(job, seed, exe, n):
  rng = random.Random(seed); p = Proc(exe)
  for _ in range(n):
    tm, ns, nk = machine(rng); tab = R.parse_tm(tm); c = conf(rng, ns, nk); C = R.enc_config(c); op = rng.choice(("equiv", "equiv", "replace", "replace", "steps", "steps", "show")); job.count("config_ops")
    if op == "show":
      r = p.ask("show", C); t = p.ask("tm", tm)
      if t != "OK " + tm: job.violation("a machine is not printed as it was read", tm=tm, got=t)
      if refused(job, r, config=C): job.violation("a well-formed configuration is refused", config=C, got=r); continue
      for env in envs(rng, 3):
        try: a, b = R.Conc(c, env).key(), R.Conc(R.parse_config(r[3:]), env).key()
        except R.TooBig: continue
        except R.Bad: job.violation("unreadable configuration", config=C, got=r); break
        job.count("config_values")
        if a != b: job.violation("a configuration is not printed as it was read", config=C, got=r, env=env); break
    elif op == "equiv":
      d = vary(rng, c) if rng.random() < .9 else conf(rng, ns, nk); D = R.enc_config(d); r = p.ask("equiv", C, D)
      if refused(job, r, a=C, b=D): continue
      yes = r == "OK true"; job.count("equal_answers" if yes else "unequal_answers")
      if not yes:
        if plain(c) and plain(d) and not any(0 in (e[2],) for x in (c, d) for b in x[:2] for _, e in b if e != "inf"):
          e0 = envs(rng, 1)[0]; a, b = R.Conc(c, e0), R.Conc(d, e0)
          if (a.s, a.d) == (b.s, b.d) and a.key() == b.key() and not (any(a.inf) or any(b.inf)): job.violation("equal configurations of plain runs are told apart", a=C, b=D)
        continue
      job.nontrivial(("eq", C, D))
      for env in envs(rng):
        try: a, b = R.Conc(c, env).key(), R.Conc(d, env).key()
        except R.TooBig: continue
        job.count("config_values")
        if a != b: job.violation("different configurations are taken for equal", a=C, b=D, env={k: v for k, v in env.items() if k in VARS}, have=str((a, b))[:400]); break
    elif op == "steps":
      k = rng.randint(0, 12) if rng.random() < .7 else rng.randint(13, 200); r = p.ask("steps", tm, C, str(k))
      if refused(job, r, tm=tm, config=C):
        if concrete(c):
          x = R.Conc(c, envs(rng, 1)[0])
          try:
            for _ in range(k): x.step(tab)
          except R.Falls: pass
          else: job.violation("steps of a configuration without variables are refused", tm=tm, config=C, steps=k, got=r)
        continue
      if k: job.nontrivial(("steps", tm, C, k))
      try: z = R.parse_config(r[3:])
      except R.Bad: job.violation("unreadable configuration", tm=tm, config=C, got=r); continue
      for env in envs(rng):
        try:
          x = R.Conc(c, env); want = R.Conc(z, env).key()
          for _ in range(k): x.step(tab)
        except R.TooBig: continue
        except R.Falls as e: job.violation("steps are taken which the machine cannot take", tm=tm, config=C, steps=k, got=r, why=str(e)); break
        job.count("config_values")
        if x.key() != want: job.violation("symbolic steps disagree with the machine", tm=tm, config=C, steps=k, got=r, env={k: v for k, v in env.items() if k in VARS}, want=str(x.key())[:300]); break
    else:
      def cut(b, left):
        b = list(b) if left else list(b)[::-1]
        b = b[rng.randint(0, len(b)):] if rng.random() < .8 else b
        if b and b[0][1] != "inf" and b[0][1][0] == "v" and rng.random() < .5:
          s, e = b[0]; b[0] = (s, ("v", {x: k for x, k in e[1].items() if rng.random() < .7}, rng.randint(0, e[2])))
        return b if left else b[::-1]
      v = vary(rng, c) if rng.random() < .5 else c
      o = (cut(v[0], True), cut(v[1], False), c[2] if rng.random() < .95 else "B", c[3] if rng.random() < .95 else "L"); w = conf(rng, ns, nk)
      w = tuple([b for b in w[k] if b[1] != "inf"] if not any(e == "inf" for _, e in o[k]) else w[k] for k in (0, 1)) + w[2:]
      O, W = R.enc_config(o), R.enc_config(w); r = p.ask("replace", C, O, W)
      if refused(job, r, config=C, old=O): continue
      job.nontrivial(("replace", C, O, W)); job.count("replacements")
      try: z = R.parse_config(r[3:])
      except R.Bad: job.violation("unreadable configuration", config=C, old=O, new=W, got=r); continue
      if (c[2], c[3]) != (o[2], o[3]): job.violation("replaced under another state or direction", config=C, old=O, new=W, got=r); continue
      for env in envs(rng):
        try: a, b, x, y = (R.Conc(q, env) for q in (c, o, w, z))
        except R.TooBig: continue
        except R.Bad: break
        job.count("config_values"); want = R.Conc(w, env)
        for k in (0, 1):
          s = split(a.st[k], a.inf[k], b.st[k], b.inf[k])
          if s is None: want = None; break
          want.st[k] = s[0] + x.st[k]; want.inf[k] = s[1] or x.inf[k]
        if want is None or want.key() != y.key(): job.violation("replacement of a part which is not there" if want is None else "replacement gives another configuration", config=C, old=O, new=W, got=r, env={k: v for k, v in env.items() if k in VARS}); break
  p.close()

# ---- rule sets ----
def judge(job, rng, tm, rules, note, k=5):
  """An accepted rule set: every rule at several assignments."""
  tab = R.parse_tm(tm)
  for i, r in enumerate(rules):
    for env in envs(rng, k, 3):
      try: h = R.holds(tab, rules, i, env)
      except R.TooBig: job.count("too_big"); continue
      except R.Bad: job.count("not_judged"); continue
      job.count("rule_instances")
      if h is not True:
        job.violation("a false rule is accepted", tm=tm, rules=[R.enc_rule(x) for x in rules], rule=i, env={x: v for x, v in env.items() if x in VARS + "c"}, why=h[1][:500], note=note); return False
  return True
def ask_rules(p, tm, rules): return p.ask("rules", tm, *[R.enc_rule(r) for r in rules])

def chains(rng, tm, ns, nk):
  """True chain rules: the head goes through a repeated block."""
  tab = R.parse_tm(tm); out = []
  for s in range(ns):
    for d in "LR":
      for w in [str(a) for a in range(nk)] + ["".join(str(rng.randrange(nk)) for _ in range(rng.choice((2, 2, 3)) if rng.random() < .9 else rng.randint(4, 16))) for _ in range(3)]:
        c = ([], [(w, R.V("1"))], chr(65 + s), "R") if d == "R" else ([(w, R.V("1"))], [], chr(65 + s), "L"); x = R.Conc(c, {})
        for t in range(1, 40):
          try: x.step(tab)
          except R.Falls: break
          if x.s == chr(65 + s) and x.d == d and not x.st[d == "R"]:
            o = "".join(map(str, x.st[0] if d == "R" else x.st[1][::-1])); n = R.V("n"); h = (chr(65 + s), d)
            init = ([], [(w, n)]) + h if d == "R" else ([(w, n)], []) + h; fin = ([(o, n)], []) + h if d == "R" else ([], [(o, n)]) + h
            out.append(dict(init=init, final=fin, kind="I", base=[], steps=[("I", {"n": n}), ("T", t)] if rng.random() < .5 or len(w) > 1 else [("T", t), ("I", {"n": n})], block=w, head=h)); break
  rng.shuffle(out); return out[:5]

def believed(a):
  m = re.search(r"Final configuration mismatch: (.*) != ", a)
  return m and m[1].strip()
DUMMY = ([("0", R.V("77"))], [("0", R.V("78"))], "A", "R")
def grow(job, rng, p, tm, ns, nk, rules):
  """Extend a proof step by step; the rule then says what the validator itself makes of it."""
  c = conf(rng, ns, nk, rec=.25); st = []; cur = c; bad = 0
  for _ in range(rng.randint(2, 9)):
    front = (cur[1][0] if cur[1] else None) if cur[3] == "R" else (cur[0][-1] if cur[0] else None); cand = []
    if front and front[1] != "inf":
      for j, r in enumerate(rules):
        if r.get("block") == front[0] and r["head"] == (cur[2], cur[3]): cand.append(("R", j, {"n": front[1]}))
    if rules and rng.random() < .3:
      j = rng.randrange(len(rules)); cand.append(("R", j, {x: gen(rng, rng.choice((0, 0, 1))) for x in rng.sample(VARS, rng.randint(1, 3))}))
    cand += [("T", rng.randint(1, 4))] * 2; s = rng.choice(cand)
    a = ask_rules(p, tm, rules + [dict(init=c, final=DUMMY, kind="S", base=[], steps=st + [s])]); b = believed(a)
    if not b:
      refused(job, a, tm=tm); bad += 1
      if bad > 4: break
      continue
    try: cur = R.parse_config(b)
    except R.Bad: job.count("not_judged"); break
    if "<x" in b: break
    st.append(s)
  if not st: return None
  return dict(init=c, final=cur, kind="S", base=[], steps=st)

def mutate(rng, rules):
  i = rng.randrange(len(rules)); r = dict(rules[i]); rules = list(rules); rules[i] = r; k = rng.randrange(10)
  if k < 2: r["final"] = vary(rng, r["final"])
  elif k == 2: r["init"] = vary(rng, r["init"])
  elif k == 3: r["final"] = r["final"][:2] + (rng.choice((r["final"][2], "A", "Z")), rng.choice("LR"))
  elif k == 4 and r["steps"]: st = list(r["steps"]); j = rng.randrange(len(st)); s = st[j]; st[j] = ("T", s[1] + rng.choice((-1, 1, 2))) if s[0] == "T" and s[1] else s; r["steps"] = st
  elif k == 5 and r["steps"]: st = list(r["steps"]); del st[rng.randrange(len(st))]; r["steps"] = st
  elif k == 6 and r["steps"]:
    st = list(r["steps"]); j = rng.randrange(len(st)); s = st[j]
    if s[0] != "T":
      m = dict(s[-1]); x = rng.choice(sorted(m) or ["n"]); m[x] = cousin(rng, m[x]) if x in m else R.V("n"); st[j] = s[:-1] + (m,); r["steps"] = st
  elif k == 7: r["kind"] = "SI"[r["kind"] == "S"]
  elif k == 8: r["steps"] = list(r["steps"]) + [rng.choice(r["steps"])] if r["steps"] else []
  else: r["base"], r["steps"] = r["steps"], r["base"]
  return rules

def false_proofs(rng, tm, ns, nk, rules):
  """Claims out of thin air, with proofs which only an unsound validator takes."""
  i = len(rules); a = conf(rng, ns, nk, 0); b = conf(rng, ns, nk, 0); n = R.V("n")
  if rng.random() < .7: a, b = (a[0] + [("0", n)], a[1], a[2], a[3]), (b[0] + [("1", n)], b[1], b[2], b[3])
  S = lambda st: [dict(init=a, final=b, kind="S", base=[], steps=st)]
  I = lambda base, st: [dict(init=a, final=b, kind="I", base=base, steps=st)]
  base0 = lambda c: tuple([(s, R.V("0") if e == n else e) for s, e in c[k]] for k in (0, 1)) + c[2:]
  k = rng.randrange(14); other = dict(init=a, final=b, kind="S", base=[], steps=[("R", i, {})])
  if k == 0: return S([("R", i, {})])
  if k == 1: return S([("R", i + 1, {})]) + [other]
  if k == 2: return S([("I", {"n": n})])
  if k == 3: return I([("I", {"n": n})], [("I", {"n": n})])
  if k == 4: return I([("R", i, {})], [("R", i, {})])
  # truth at n = 0, then the hypothesis at the wrong place
  a0 = (a[0], a[1], a[2], a[3]); w = rng.choice((R.V("n+1"), R.V("a"), R.V("2n"), R.V("0"), R.V("1"), None, R.V("n+a"), ("r", "x", R.V("x"), R.V("1"), R.V("n+1")), ("r", "n", R.V("n+1"), R.V("1"), n)))
  b = ([(s, e) for s, e in a[0]] + [("1", n)], a[1], a[2], a[3]); a = (a[0] + [("0", n)], a[1], a[2], a[3])
  sub = {} if w is None else {"n": w}
  if k in (5, 6, 7, 8): return [dict(init=a, final=b, kind="I", base=[], steps=[("I", sub)])]
  if k == 9: return [dict(init=a, final=b, kind="I", base=[], steps=[])]
  if k == 10: return [dict(init=a, final=b, kind="I", base=[], steps=[("I", {"n": n}), ("I", {"n": n})])]
  if k == 11: return [dict(init=a, final=b, kind="I", base=[("T", 1)], steps=[("I", {"n": n})])]
  if k == 12 and rules:   # an earlier rule at the wrong place
    j = rng.randrange(len(rules)); r = rules[j]; m = {x: vs(rng) for x in "nab"}
    return [dict(init=vary(rng, r["init"]), final=r["final"], kind="S", base=[], steps=[("R", j, {} if rng.random() < .5 else m)])]
  return [dict(init=a, final=b, kind="S", base=[], steps=[])]

def C(s): return R.parse_config(s)
def E(s): return R.parse(s)
def chain(a, b, t): return dict(init=C(a), final=C(b), kind="I", base=[], steps=[("I", {"n": R.V("n")}), ("T", t)])
def ind(a, b, steps, base=()): return dict(init=C(a), final=C(b), kind="I", base=list(base), steps=steps)
def simp(a, b, steps): return dict(init=C(a), final=C(b), kind="S", base=[], steps=steps)
def T(n): return ("T", n)
def Rl(j, **m): return ("R", j, {x: E(e) for x, e in m.items()})
def In(**m): return ("I", {"n": R.V("n"), **{x: E(e) for x, e in m.items()}})
def published():
  """Known machines; correct proofs (from the author's articles), which have to be accepted."""
  bouncer = [chain("C> 1^n", "1^n C>", 1), chain("1^n <E", "<E 1^n", 1),
    ind("0^inf 1^a A> 1^n 0^inf", "0^inf 1^a+2n A> 0^inf", [T(1), Rl(0, n="n"), T(2), Rl(1, n="n+1"), T(2), In(a="a+2")]),
    simp("0^inf 1^a A> 0^inf", "0^inf 1^2a+4 A> 0^inf", [T(5), Rl(1, n="a+2"), T(2), Rl(2, a="2", n="a+1")]),
    ind("0^inf 1^a A> 0^inf", "0^inf 1^((λz.2z+4)^n a) A> 0^inf", [In(), Rl(3, a="((λz.2z+4)^n a)")]),
    simp("0^inf 1^a A> 0^inf", "0^inf 1^((λz.2z+4)^2b+1 a) A> 0^inf", [Rl(4, n="2b+1")]),
    simp("0^inf 1^a A> 0^inf", "0^inf 1^((λz.2z+4)^b ((λz.2z+4)^n a)) A> 0^inf", [Rl(4), Rl(4, a="((λz.2z+4)^n a)", n="b")]),
    simp("0^inf 1^b A> 0^inf", "0^inf 1^((λz.2z+4)^b ((λz.2z+4)^2n b)) A> 0^inf", [Rl(6, a="b", n="2n")])]
  level1 = [chain("C> 0^n", "2^n C>", 1), chain("2^n <C", "<C 0^n", 1),
    ind("0^inf <C 0^a 2^n", "0^inf <C 0^a+2n", [T(1), Rl(0, n="a"), T(1), Rl(1, n="a+1"), In(a="a+2")]),
    ind("0^inf <C 0^a 2^n", "0^inf <C 0^((λx.x+2)^n a)", [T(1), Rl(0, n="a"), T(1), Rl(1, n="a+1"), In(a="a+2")])]
  counter = [chain("1^n <A", "<A 1^n", 1), chain("B> 1^n", "0^n B>", 1),
    ind("0^n 1 0 0 B> 0", "1^n+1 0 0 B> 0", [In(), T(5), Rl(0, n="n+1"), T(1), Rl(1, n="n+3"), T(8), In()]),
    simp("0^inf 1 0 0 B> 0", "0^inf 1^n+1 0 0 B> 0", [Rl(2, n="n")])]
  bb2 = [simp("0^inf A> 0^inf", "0^inf 1^2 Z> 1^2 0^inf", [T(6)])]
  return dict(bouncer=("1RB0RC_0LC---_1RD1RC_0LE1RA_1RD1LE", bouncer), level1=("1RB0LB1LA_2LC2LB2LB_2RC2RA0LC", level1), counter=("1RB1LA_0LC0RB_0LD0LB_1RE---_1LE1LA", counter), bb2=("1RB1LB_1LA1RZ", bb2))

def rulesets(job, seed, exe, n):
  rng = random.Random(seed); p = Proc(exe); pub = published()
  for _ in range(n):
    if rng.random() < .35:
      name = rng.choice(sorted(pub)); tm, rules = pub[name]; ns, nk = tm.count("_") + 1, len(tm.split("_")[0]) // 3
    else:
      tm, ns, nk = machine(rng); rules = chains(rng, tm, ns, nk)
      if rules:
        a = ask_rules(p, tm, rules); job.count("chain_sets")
        if refused(job, a, tm=tm): job.count("chain_sets_refused"); rules = []
        else: judge(job, rng, tm, rules, "chains", 4); job.count("accepted_sets")
      for _ in range(rng.randint(1, 3)):
        r = grow(job, rng, p, tm, ns, nk, rules)
        if not r: continue
        a = ask_rules(p, tm, rules + [r]); job.count("grown_rules")
        if refused(job, a, tm=tm): job.count("grown_rules_refused"); continue
        rules = rules + [r]; job.count("accepted_sets"); job.nontrivial((tm, R.enc_rule(r)))
        if not judge(job, rng, tm, rules, "grown"): break
    for _ in range(rng.randint(4, 10)):
      if rules and rng.random() < .6:
        m = mutate(rng, rules)
        if rng.random() < .3: m = mutate(rng, m)
      else: m = rules + false_proofs(rng, tm, ns, nk, rules)
      a = ask_rules(p, tm, m); job.count("tampered_sets")
      if refused(job, a, tm=tm, rules=[R.enc_rule(x) for x in m]): continue
      job.count("tampered_accepted"); job.count("accepted_sets"); judge(job, rng, tm, m, "tampered")
  p.close()

def guard(job, f, *a):
  with job_limit(700): FUNCS[f](job, *a)
FUNCS = dict(counts=counts, configs=configs, rulesets=rulesets)

if __name__ == "__main__":
  ctx = Ctx("C24"); rng = ctx.rng; tmp = tempfile.mkdtemp(prefix="c24_")
  try:
    d, exe, env = rustbuild.build(tmp)
    p = Proc(exe)
    for k, (tm, rules) in published().items():
      a = ask_rules(p, tm, rules); ctx.count("published_sets")
      if a != "OK": ctx.violation("a correct published proof is refused", machine=k, tm=tm, answer=a[:500])
      else:
        j = V.Job(); judge(j, rng, tm, rules, "published", 12); ctx.merge((j.counts, j.viol, j.samples, j.distinct, j.known, j.errors))
    p.close()
    jobs = [("counts", rng.random(), exe, ctx.n(400, 1500)) for _ in range(ctx.n(24, 160))] + [("configs", rng.random(), exe, ctx.n(150, 600)) for _ in range(ctx.n(24, 160))] + [("rulesets", rng.random(), exe, ctx.n(8, 30)) for _ in range(ctx.n(24, 160))]
    ctx.pmap(guard, jobs)
    res, out = rustbuild.crate_tests(d, env); ctx.count("crate_tests", len(res))
    bad = [k for k, v in res.items() if v == "FAILED"]
    if bad: ctx.violation("the crate's own proofs or checks fail", tests=bad, out=out[-2000:])
    elif not res: ctx.errors.append("crate tests did not run: " + out[-2000:])
  finally: shutil.rmtree(tmp)
  ctx.assumptions += ["built offline with a stand-in for the enum-map crate, overflow checks and debug assertions on; an overflow panic counts as refusal, any other panic as a violation",
    "a rule is judged at sampled assignments of small numbers, over the number of machine steps its proof stands for", "proofs with an Admit step are not covered: it is documented to skip the proof"]
  for k, m in (("count_ops", 3000), ("count_values", 5000), ("sub_answers", 300), ("config_ops", 1500), ("equal_answers", 100), ("replacements", 60), ("config_values", 1500), ("accepted_sets", 60), ("rule_instances", 1000), ("tampered_sets", 300), ("crate_tests", 20)): ctx.require(k, m)
  ctx.finish("rule_instances", "random counts, configurations and machines, proofs grown step by step, tampered and circular proofs, published proofs; non-trivial: a distinct accepted rule, replacement, equality or symbolic operation on a recursive count")
