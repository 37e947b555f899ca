"""C13: everything stored in a record reads back equal; numbers of any size keep their value."""
import inspect, os, random, shutil, tempfile
import vcheck_lib as V, ref, bb, recgen as G, exptruth as X
from vcheck_lib import Ctx, job_limit, quiet
import Exp_Int as EI, Halting_Lib as H
pb = bb.io_pb2

def diff(job, where, got, v, truth, **d):
  job.count("numbers"); job.count("ints" if isinstance(v, int) else "formulas")
  job.nontrivial((where, str(v)[:200] if not isinstance(v, int) else hex(v)))
  x = G.value_diff(got, v, truth)
  if x: job.violation(f"{where}: {x}", **d)

def antique(rng, m):
  """The same number as files of earlier versions hold it: the deprecated fields."""
  def big(f):
    if f.WhichOneof("big_int") == "exp_int": go(f.exp_int)
    elif f.WhichOneof("big_int") == "int" and f.int >= 0 and rng.random() < .7: f.uint_old = f.int
  def go(e):
    v = H.get_big_int(e.const)
    if isinstance(v, int) and -2**63 <= v < 2**63 and rng.random() < .8: e.ClearField("const"); e.const_old = v
    else: big(e.const)
    for t in e.terms:
      v = H.get_big_int(t.coef)
      if isinstance(v, int) and -2**63 <= v < 2**63 and rng.random() < .8: t.ClearField("coef"); t.coef_old = v
      else: big(t.coef)
      big(t.exponent)
  go(m)

def numbers(job, seed, n):
  """The number fields themselves, also re-used ones and through bytes."""
  rng = random.Random(seed); f = pb.BigInt()
  for i in range(n):
    v, t = G.rand_value(rng)
    if rng.random() < 0.02: v, t = G.tall(rng, rng.choice((30, 300, 3000, rng.randint(1, 6000))))
    if rng.random() < 0.5: f = pb.BigInt()     # else: over whatever was stored before
    before = str(v) if not isinstance(v, int) else None
    H.set_big_int(f, v)
    if before is not None and str(v) != before: job.violation("storing a number changed it", was=before[:200], now=str(v)[:200])
    g = pb.BigInt(); g.ParseFromString(f.SerializeToString())
    diff(job, "number field", H.get_big_int(g), v, t)
    h = pb.BigInt(); H.set_big_int(h, H.get_big_int(g))   # saving again what was read
    diff(job, "number stored twice", H.get_big_int(h), v, t)
    if h.SerializeToString() != f.SerializeToString(): job.count("reencoded_differently")
    if isinstance(v, EI.ExpInt) and v.depth < 200:
      m = pb.ExpInt()
      try: H.serialize_exp_int(v, m)
      except ValueError: job.count("denominator_or_base_too_large"); continue
      m2 = pb.ExpInt(); m2.ParseFromString(m.SerializeToString())
      diff(job, "structured formula", H.parse_exp_int(m2), v, t)
      b = pb.BigInt(); b.exp_int.CopyFrom(m2); diff(job, "formula field", H.get_big_int(b), v, t)
      antique(rng, m2); diff(job, "formula as earlier versions stored it", H.parse_exp_int(m2), v, t); job.count("deprecated_fields")
  for v in (0, 1, 2**31, 2**32 + 1, 2**63, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(40)):
    f = pb.BigInt(); f.uint_old = v; diff(job, "number as earlier versions stored it", H.get_big_int(f), v, X.I(v))
  for bad in (1.5, "7", None, 2.0**70):
    f = pb.BigInt()
    try: H.set_big_int(f, bad)
    except (TypeError, ValueError): job.count("refused")
    else: job.violation("a value that is no integer was stored", value=repr(bad), got=repr(H.get_big_int(f)))

def files(job, seed, n, tmp):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  for it in range(n):
    p = os.path.join(d, rng.choice(("a.pb", "a.pb.gz"))); q = os.path.join(d, "b.pb"); recs = []
    for _ in range(rng.choice((0, 1, 3, 8))):
      tr = {}; F = {}
      if rng.random() < 0.6: r = G.rand_record(rng, tr, p=None)
      else:
        r = G.rand_record(rng, {}, p=0.2); kind, F = G.status(rng, r.proto); job.count("status_" + kind)
      recs.append((r, r.proto.SerializeToString(deterministic=True), tr, F))
    with bb.IO.Proto.Writer(p) as w:
      for r, *_ in recs:
        w.write_record(r)
        if rng.random() < 0.3: w.flush()
    with bb.IO.Proto.Reader(p) as rd: got = list(rd)
    job.count("files"); job.count("records", len(recs))
    if len(got) != len(recs): job.violation("number of records differs", wrote=len(recs), read=len(got)); continue
    for (r, raw, tr, F), g in zip(recs, got):
      if r.proto.SerializeToString(deterministic=True) != raw: job.violation("writing changed the record in memory")
      want = pb.TMRecord(); want.ParseFromString(raw)
      if g.proto != want: job.violation("record read back differs", want=str(want)[:800], got=str(g.proto)[:800]); continue
      for path, (v, t) in tr.items(): diff(job, path, H.get_big_int(G.get_path(g.proto, path)), v, t)
      st = g.proto.status
      for k, fld in (("steps", st.halt_status.halt_steps), ("score", st.halt_status.halt_score), ("q", st.quasihalt_status.quasihalt_steps)):
        if k in F: diff(job, "verdict " + k, H.get_big_int(fld), *F[k])
      if rng.random() < 0.5: g.tm(); g.ttable_str() if g.tm().num_states < 25 and g.tm().num_symbols < 10 else None; g.is_unknown_halting(); g.tm_enum()
      if g.proto != want: job.violation("looking at a record changed it")
    with bb.IO.Writer(q) as w:
      for g in got: w.write_record(g)
    with bb.IO.Reader(q) as rd: again = list(rd)
    job.count("resaved", len(again))
    if [a.proto for a in again] != [g.proto for g in got]: job.violation("re-saving changed records")
    # re-opening an existing file replaces it; a machine loaded by number is the right one
    if recs:
      i = rng.randrange(len(recs)); g = bb.IO.Proto.load_record(q, i)
      if g.proto != got[i].proto: job.violation("record loaded by number is not that record", i=i)
      job.count("loaded_by_number")
  shutil.rmtree(d)

SIG = inspect.signature(H.set_halting)
def setters(job, seed, n):
  """What the verdict setters say is what the record says."""
  rng = random.Random(seed)
  for _ in range(n):
    st = pb.BBStatus(); hs, qs = st.halt_status, st.quasihalt_status
    k = rng.choice(("halt", "inf", "recur", "nq")); job.count("verdicts_set")
    if k == "halt":
      s, sc = G.rand_value(rng, neg=False), G.rand_value(rng, neg=False); a, b = rng.choice((None, rng.randrange(30))), rng.choice((None, rng.randrange(30)))
      ns = rng.random() < 0.3
      H.set_halting(st, s[0], None if ns else sc[0], a, b)
      if not (hs.is_decided and hs.is_halting and qs.is_decided and not qs.is_quasihalting): job.violation("set_halting: verdict not recorded", st=str(st))
      diff(job, "halting steps", H.get_big_int(hs.halt_steps), *s)
      if ns:
        if H.get_big_int(hs.halt_score) is not None: job.violation("an unknown score reads back as a number", st=str(st))
      else: diff(job, "halting score", H.get_big_int(hs.halt_score), *sc)
      if (hs.from_state, hs.from_symbol) != (a or 0, b or 0): job.violation("halting transition not recorded", want=(a, b), st=str(st))
    elif k == "inf":
      r = rng.choice(list(pb.InfReason.values())); H.set_not_halting(st, r)
      if not hs.is_decided or hs.is_halting or hs.inf_reason != r: job.violation("set_not_halting: verdict not recorded", st=str(st))
    elif k == "recur":
      states = list(range(rng.randint(1, 6))); ign = set(s for s in states if rng.random() < 0.5)
      seen = {s: rng.choice((0, rng.randint(0, 10), rng.getrandbits(80))) for s in states if rng.random() < 0.9}
      H.set_inf_recur(st, ign, seen); rest = {s: x for s, x in seen.items() if s not in ign}
      if not qs.is_decided or qs.is_quasihalting != bool(rest): job.violation("set_inf_recur: verdict not recorded", ign=str(ign), seen=str(seen), st=str(st))
      elif rest:
        m = max(rest.values())
        if H.get_big_int(qs.quasihalt_steps) != m + 1 or rest.get(qs.quasihalt_state) != m: job.violation("set_inf_recur: wrong step or state", ign=str(ign), seen=str(seen), st=str(st))
      st2 = pb.BBStatus(); H.set_inf_recur(st2, *rng.choice(((None, {}), ([], None), (None, None))))
      if st2.quasihalt_status.is_decided: job.violation("quasihalting decided without data")
    else:
      H.set_not_quasihalting(st)
      if not qs.is_decided or qs.is_quasihalting: job.violation("set_not_quasihalting: verdict not recorded", st=str(st))

# machines whose results are towers
BIG = ["1RB0LD_1RC0RF_1LC1LA_0LE1RZ_1LF0RB_0RC0RE", "1RB1RE_0RC0RF_1LD0RB_1LE0RC_0LA0LD_1RZ1RC", "1RB1LA_1LC0RF_1LD1LC_1LE0RE_0RB0LC_1RZ1RA", "1RB0LE_1LC0RA_1LD0RC_1LE0LF_1LA1LC_1LE1RZ",
       "1RB1RZ_0LC0LE_1LD1LA_1RD0RE_1RA0RF_1LB1RF", "1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "1RB2LA4RA2LB2LA_0LA2RB3RB4RA1RZ", "1RB2LA4RA1LB2LA_0LA2RB3RB2RA1RZ"]
def real(job, s, kw, tmp):
  """What a decider stored in the record is what the file gives back."""
  seen = []
  old = H.set_halting
  def spy(*a, **k):
    try: b = SIG.bind(*a, **k).arguments; seen.append((b["halt_steps"], b["halt_score"]))
    except (TypeError, KeyError): pass
    return old(*a, **k)
  rec = bb.record(s)
  with quiet():
    H.set_halting = spy
    try: bb.MS.run_options(rec, bb.options(**kw))
    except bb.ExpIntException: job.count("declined"); return
    finally: H.set_halting = old
  d = tempfile.mkdtemp(dir=tmp); p = os.path.join(d, "r.pb")
  with bb.IO.Proto.Writer(p) as w: w.write_record(rec)
  with bb.IO.Proto.Reader(p) as r: g = r.read_record()
  if g.proto != rec.proto: job.violation("record of a decided machine reads back different", tm=s)
  job.count("deciders_run")
  hs = g.proto.status.halt_status
  if seen and hs.is_halting:
    for v, f in zip(seen[-1], (hs.halt_steps, hs.halt_score)):
      if v is None: continue
      got = H.get_big_int(f); job.count("decider_numbers"); job.count("decider_formulas" if not isinstance(v, int) else "decider_ints")
      x = (None if got == v else "differs") if isinstance(v, int) else (None if str(got) == str(v) and G.layers_of(got) == G.layers_of(v) and all(got % m == v % m for m in (97, 1024, 3**5)) else "differs")
      if x: job.violation("result of a decider " + x, tm=s, options=str(kw), want=str(v)[:200], got=str(got)[:200])
    job.nontrivial(("real", s, str(kw)))

def guard(job, f, *a):
  try:
    with job_limit(LIMIT): FUNCS[f](job, *a)
  except V.JobTimeout: job.count("jobs_timed_out")
FUNCS = dict(numbers=numbers, files=files, setters=setters, real=real)

if __name__ == "__main__":
  ctx = Ctx("C13"); LIMIT = ctx.n(60, 400); rng = ctx.rng; ref.lib(); tmp = tempfile.mkdtemp(prefix="c13_")
  try:
    jobs = [("numbers", rng.random(), 250) for _ in range(ctx.n(40, 600))] + [("files", rng.random(), 30, tmp) for _ in range(ctx.n(32, 400))] + [("setters", rng.random(), 400) for _ in range(ctx.n(8, 60))]
    jobs += [("real", s, dict(max_loops=n, recursive=True, exp_linear_rules=e, compute_steps=not e, no_ctl=True, no_lin_recur=True, block_size=b), tmp) for s in BIG for e in (True, False) for b in (1, 3, None) for n in (20000 if e and b != 1 else 2000,)]
    rng.shuffle(jobs)
    ctx.pmap(guard, jobs)
  finally: shutil.rmtree(tmp)
  for k, m in (("formulas", 4000), ("ints", 8000), ("records", 1000), ("resaved", 1000), ("verdicts_set", 1000), ("deciders_run", 10)): ctx.require(k, m)
  ctx.finish("numbers", "integers of 1..60000 bits and formulas of 1..6000 layers, either sign, in every number field; records filled by reflection over the schema; non-trivial: a distinct number stored and read back")
