"""Access to the repository's Python code: one place for every name we depend on."""
import os, sys
import vcheck_lib as V
V.repo_imports()
import optparse
import ref

def load():
  global IO, Sim, TMm, PS, Tape, MS, io_pb2, Halting_Lib, TM_Enum, TM_Record
  import IO as _IO, io_pb2 as _pb, Halting_Lib as _H, TM_Enum as _E, Macro_Simulator as _MS
  from IO import TM_Record as _R
  from Macro import Simulator as _S, Turing_Machine as _T, Proof_System as _P, Tape as _Ta
  IO, io_pb2, Halting_Lib, TM_Enum, MS, TM_Record = _IO, _pb, _H, _E, _MS, _R
  Sim, TMm, PS, Tape = _S, _T, _P, _Ta
load()
from Exp_Int import try_eval, ExpIntException  # the latter: an explicit refusal to compare tower numbers

def options(**kw):
  parser = optparse.OptionParser()
  MS.add_option_group(parser)
  o, _ = parser.parse_args([])
  o.time = 0
  for k, v in kw.items():
    setattr(o, k, v)
  return o

def macro(tm, k=1, offset=0, back=False, backsteps=None, blocksteps=None):
  m = tm
  if k > 1 or offset:
    m = TMm.Block_Macro_Machine(m, k, offset or None) if blocksteps is None else TMm.Block_Macro_Machine(m, k, offset or None, blocksteps)
  if back: m = TMm.Backsymbol_Macro_Machine(m)
  return m

def record(tm_str, allow_no_halt=False):
  tm = IO.parse_tm(tm_str) if isinstance(tm_str, str) else tm_str
  return TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(tm, allow_no_halt=allow_no_halt))

def flat(sym):
  return list(sym) if isinstance(sym, tuple) else [sym]

def too_big(tape, limit):
  n = 0
  for side in tape.tape:
    for b in side[1:]:
      if not isinstance(b.num, int): return True
      n += b.num * (len(b.symbol) if isinstance(b.symbol, tuple) else 1)
      if n > limit: return True
  return False

def expand(sim): return expand_tape(sim.tape, sim.state, sim.dir)

def expand_tape(tape, st, d):
  """(left cells reading left-to-right, right cells left-to-right, base state, dir) with the
  head between: dir R -> head on right[0], dir L -> head on left[-1].  Infinite ends dropped
  (they are blank, which is checked).  None if there is no base-level equivalent."""
  left, right = [], []
  for b in tape.tape[0][1:]: left += flat(b.symbol) * b.num
  for b in reversed(tape.tape[1][1:]): right += flat(b.symbol) * b.num
  ends_ok = all(all(x == 0 for x in flat(s[0].symbol)) for s in tape.tape)
  if hasattr(st, "back_symbol"):
    if d == TMm.RIGHT: left = left + flat(st.back_symbol)
    else: right = flat(st.back_symbol) + right
    st = st.base_state
  if isinstance(st, TMm.OffsetStartState): return None
  return left, right, int(st), d, ends_ok

def corpus(rng, n, max_steps=None, min_steps=0):
  path = os.path.join(V.VERIF, "corpus", "halting.txt")
  l = [x.split() for x in open(path)]
  l = [(s, int(c)) for s, c in l if int(c) >= min_steps and (max_steps is None or int(c) <= max_steps)]
  rng.shuffle(l)
  return l[:n]
