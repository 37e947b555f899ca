"""Ground truth about which states a non-halting machine visits for ever."""
import ref, bb, simmon, rulemon
import vcheck_lib as V

def lr_truth(tab, n=24000):
  """(recurrent states, {state: last visit}) if the machine is a certified linear recurrence by step n."""
  r = ref.Ref(tab, 1 << 22); t = r.trace(n)
  if len(t) < n or r.overflow: return None
  tail = t[-24:]
  for p in range(1, n // 3):
    if t[n - 24 - p:n - p] != tail: continue
    if t[n - 3 * p:n - p] == t[n - 2 * p:]:
      a = ref.Ref(tab, 1 << 22).run(n - 2 * p); b = ref.Ref(tab, 1 << 22).run(n - p)
      if ref.certify(tab, n - 2 * p, p, b.pos - a.pos) is None:
        nk = len(tab[0]); rec = {x // nk for x in t[-p:]}
        last = {}
        for i in range(len(tab)):
          k = max(t.rfind(bytes([i * nk + j])) for j in range(nk))
          if k >= 0: last[i] = k
        return rec, last
  return None

def rule_truth(tm_str, cfg, max_loops, horizon=2_000_000):
  """The same for a machine the prover declares infinite: re-run to the declaration, then find the
  recurrence of the tape shape with plain simulation; the states visited in between are the
  recurrent ones (every repetition takes the same path)."""
  sim = simmon.make_sim(tm_str, cfg)
  for _ in range(max_loops):
    prev = (sim.tape.copy(), sim.state, sim.step_num, sim.dir)
    sim.step()
    if sim.op_state != bb.TMm.RUNNING: break
  if sim.op_state != bb.TMm.INF_REPEAT or sim.inf_reason != bb.io_pb2.INF_PROOF_SYSTEM or not sim.compute_steps: return None
  tape, state, t0, d = prev
  if not isinstance(t0, int) or t0 > horizon: return None
  c = dict(cfg, opts={"prover": False})
  s2 = simmon.make_sim(tm_str, c)
  s2.tape = tape.copy(); s2.state = state; s2.dir = d
  want = rulemon.shape(tape, state); base = rulemon.counts(tape)
  for _ in range(20000):
    s2.step()
    if s2.op_state != bb.TMm.RUNNING: return None
    if s2.tape.dir == tape.dir and rulemon.shape(s2.tape, s2.state) == want and all(a >= b for a, b in zip(rulemon.counts(s2.tape), base)): break
  else: return None
  n = s2.step_num
  if n > horizon: return None
  r = ref.Ref(ref.parse(tm_str), 1 << 23).run(t0 + n)
  if r.halted: return None
  last = {i: v for i, v in enumerate(r.last_seen()) if v >= 0}
  return {i for i, v in last.items() if v >= t0}, last

def judge(job, d, status, truth, tab, horizon):
  """Compare a quasihalt status of a non-halting machine with the truth (if known)."""
  q = status.quasihalt_status
  if not q.is_decided: job.count("quasihalt_undecided"); return
  n = bb.Halting_Lib.get_big_int(q.quasihalt_steps) if q.is_quasihalting else None
  if truth is None:
    r = ref.Ref(tab, 1 << 24).run(horizon); last = r.last_seen()
    job.count("quasihalt_partial_checks")
    if q.is_quasihalting and last[q.quasihalt_state] != n - 1:
      job.violation("quasihalt state is not abandoned at the reported step", claimed=[q.quasihalt_state, n], last_seen=last, **d)
    return
  rec, last = truth
  gone = {s: v for s, v in last.items() if s not in rec}
  job.count("quasihalt_exact_checks")
  if gone: job.count("truly_quasihalting")
  if q.is_quasihalting:
    job.count("quasihalting_reported")
    if not gone: job.violation("reported quasihalting but every state recurs", claimed=[q.quasihalt_state, n], **d)
    else:
      s = max(gone, key=lambda x: gone[x])
      if (q.quasihalt_state, n) != (s, gone[s] + 1): job.violation("quasihalt data differ", claimed=[q.quasihalt_state, n], want=[s, gone[s] + 1], recurrent=sorted(rec), **d)
  elif gone: job.violation("reported not quasihalting but states are abandoned", abandoned=gone, recurrent=sorted(rec), **d)
  job.nontrivial((d["tm"], str(d.get("cfg")), str(d.get("opts"))))
