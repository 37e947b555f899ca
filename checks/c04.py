"""C04: monitor of macro-machine transitions against an isolated run of the base machine."""
import random, traceback
import vcheck_lib as V, ref, bb
from vcheck_lib import Ctx, job_limit, quiet

def rtab(rng):
  ns, nk = rng.choice(((2, 2), (3, 2), (4, 2), (5, 2), (2, 3), (3, 3), (2, 4), (6, 2), (2, 5)))
  x = rng.random()
  if x < 0.4: return ref.random_tm(rng, ns, nk, p_halt=0.08, p_undef=0.06)
  if x < 0.8: return ref.tnf_tm(rng, ns, nk, 300, halt=rng.random() < 0.5)[0]
  # machines that like to stay inside a block for a long time (counters / in-place loops)
  return [[(rng.randrange(nk), (i + j + (rng.random() < 0.3)) % 2, rng.randrange(ns)) for j in range(nk)] for i in range(ns)]

def isolated(tab, cells, pos, state, budget):
  r = ref.Ref(tab)
  r.set(cells, 0, pos, state)
  r.run(budget, 0, len(cells) - 1)
  return r

def compare(job, s, desc, tr, r, n, back_k=0):
  """tr: what the macro machine said; r: isolated reference run over n cells."""
  T = bb.TMm
  def bad(what, **kw): job.violation(what, tm=s, case=desc, got=str((tr.condition, tr.condition_details, tr.symbol_out, tr.state_out, tr.dir_out, tr.num_base_steps)), ref=dict(halted=r.halted, undefined=r.undefined, steps=r.steps, pos=r.pos, state=r.state, cells=list(r.cells(0, n))), **kw)
  st = tr.state_out; out = bb.flat(tr.symbol_out)
  def deep(x):
    y = []
    for z in x: y += deep(z) if isinstance(z, tuple) else [z]
    return y
  out = deep(out)
  if hasattr(st, "back_symbol"):
    b = deep(bb.flat(st.back_symbol)); st = st.base_state
    out = out + b if tr.dir_out == T.RIGHT else b + out
  c = tr.condition
  if c == T.GAVE_UP: job.count("gave_up"); return
  if c in (T.RUNNING, T.HALT, T.UNDEFINED) and not r.halted and 0 <= r.pos < n:   # a long stay: the reference run has to be as long
    r.run(min(int(tr.num_base_steps) + 1, 300_000_000), 0, n - 1); job.count("long_stays")
    if r.steps >= 300_000_000: job.count("beyond_reference"); return
  exited = not r.halted and not (0 <= r.pos < n)
  if c == T.RUNNING:
    job.count("running_checked")
    if not exited: return bad("claims to leave the block")
    if out != list(r.cells(0, n)): return bad("block written differs")
    if int(st) != r.state: return bad("state differs")
    if (tr.dir_out == T.RIGHT) != (r.pos >= n): return bad("exit side differs")
    if tr.num_base_steps != r.steps: return bad("step count differs")
  elif c in (T.HALT, T.UNDEFINED):
    job.count("halts_checked")
    if not r.halted: return bad("claims to halt inside the block")
    if (c == T.UNDEFINED) != r.undefined: return bad("halt/undefined confusion")
    if tr.num_base_steps != r.steps: return bad("step count differs at halt")
    sy, q = tr.condition_details[0][:2]
    if (int(q), int(sy)) != (r.from_state, r.from_symbol): return bad("halting transition differs")
    if out != list(r.cells(0, n)): return bad("block written differs at halt")
  elif c == T.INF_REPEAT:
    job.count("repeats_checked")
    if r.halted or exited: return bad("claims to repeat forever inside the block")
    return
  else: return bad("unexpected condition")
  want = {i: v for i, v in enumerate(r.last_seen()) if v >= 0}
  got = {int(a): b for a, b in tr.states_last_seen.items()}
  if got != want: bad("last-seen data differ", want=want, seen=got)

def work(job, seed, n, per):
  rng = random.Random(seed)
  T = bb.TMm
  for _ in range(n):
    tab = rtab(rng); s = ref.fmt(tab); ns, nk = len(tab), len(tab[0])
    try:
      tm = bb.IO.parse_tm(s)
      kind = rng.choice(("block", "block", "back", "backblock", "blockblock", "backblockblock"))
      k1 = rng.choice((1, 2, 3, 4, 5, 6, 8)); k2 = rng.choice((1, 2, 3))
      m = tm; width = 1; lims = {}
      if "block" in kind: m = T.Block_Macro_Machine(m, k1); width = k1
      if "blockblock" in kind: m = T.Block_Macro_Machine(m, k2); width = k1 * k2
      k = k2 if "blockblock" in kind else k1
      if "back" in kind: m = T.Backsymbol_Macro_Machine(m)
      def sym(cells):
        if "blockblock" in kind: return T.Block_Symbol(tuple(T.Block_Symbol(cells[i:i + k1]) for i in range(0, width, k1)))
        if "block" in kind: return T.Block_Symbol(cells)
        return cells[0]
      for _ in range(per):
        n_cells = width * (2 if "back" in kind else 1)
        dens = rng.choice((0.1, 0.5, 1.0))
        cells = [rng.randrange(nk) if rng.random() < dens else 0 for _ in range(n_cells)]
        q = rng.randrange(ns); d = rng.randrange(2)
        st = T.Simple_Machine_State(q)
        if "back" in kind:
          lo, hi = tuple(cells[:width]), tuple(cells[width:])
          if d == T.RIGHT: a = (sym(hi), T.Backsymbol_Macro_Machine_State(st, sym(lo)), d); pos = width
          else: a = (sym(lo), T.Backsymbol_Macro_Machine_State(st, sym(hi)), d); pos = width - 1
        else:
          a = (sym(tuple(cells)), st, d); pos = 0 if d == T.RIGHT else width - 1
          if kind == "block" and k1 > 1 and rng.random() < 0.2:
            off = rng.randrange(1, k1)
            m2 = T.Block_Macro_Machine(tm, k1, off)
            if m2.init_state.__class__ is not type(st):
              q = 0; pos = off; d = T.RIGHT
              tr = m2.get_trans_object(a[0], m2.init_state, T.RIGHT)
              compare(job, s, ("offset", off, k1, cells), tr, isolated(tab, cells, pos, q, 200_000), n_cells)
              job.count("offset_starts_checked"); continue
        tr = m.get_trans_object(*a)
        r = isolated(tab, cells, pos, q, 200_000)
        job.count("transitions"); 
        compare(job, s, (kind, k1, k2, cells, q, d), tr, r, n_cells)
        # asking again must give the same answer (transitions are memoised)
        tr2 = m.get_trans_object(*a)
        if (tr2.condition, tr2.symbol_out, tr2.num_base_steps, tr2.dir_out) != (tr.condition, tr.symbol_out, tr.num_base_steps, tr.dir_out):
          job.violation("second lookup differs", tm=s, case=str((kind, k1, k2, cells, q, d)))
        if r.steps > n_cells: job.nontrivial((s, kind, tuple(cells), q, d))
    except V.JobTimeout: raise
    except Exception as e:
      job.raised(e, tm=s, kind=kind)
  job.sample({"tm": s, "kind": kind, "k": [k1, k2], "cells": cells, "state": q, "dir": d})

def memo_work(job, seed):
  """Force the transition cache to overflow: answers must not change."""
  rng = random.Random(seed); T = bb.TMm
  tab = rtab(rng); s = ref.fmt(tab)
  tm = bb.IO.parse_tm(s); ns, nk = len(tab), len(tab[0])
  m = T.Block_Macro_Machine(tm, 3)
  if hasattr(m, "max_cells"): m.max_cells = 3
  for _ in range(60):
    cells = [rng.randrange(nk) for _ in range(3)]; q = rng.randrange(ns); d = rng.randrange(2)
    tr = m.get_trans_object(T.Block_Symbol(cells), T.Simple_Machine_State(q), d)
    compare(job, s, ("memo", cells, q, d), tr, isolated(tab, cells, 0 if d else 2, q, 200_000), 3)
    job.count("transitions")

if __name__ == "__main__":
  ctx = Ctx("C04"); ref.lib()
  ctx.pmap(work, [(ctx.rng.random(), ctx.n(60, 400), ctx.n(25, 40)) for _ in range(ctx.n(160, 1600))])
  ctx.pmap(memo_work, [(ctx.rng.random(),) for _ in range(ctx.n(40, 400))])
  for k, m in (("running_checked", 5000), ("halts_checked", 500), ("repeats_checked", 100), ("offset_starts_checked", 100)): ctx.require(k, m)
  ctx.finish("transitions", "random machine x macro stacking x block content x entry side/state; non-trivial when the base machine takes more steps than the block has cells")
