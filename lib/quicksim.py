"""Monitor of the Quick_Sim.py program: what it prints against real runs of the machine."""
import os, random, re, subprocess, sys
import vcheck_lib as V, ref, bb

def flags(rng, verbose_ok):
  a = []
  if rng.random() < 0.5: a.append("--recursive")
  if rng.random() < 0.2: a.append("--no-prover")
  if rng.random() < 0.2: a.append("--limited-rules")
  if rng.random() < 0.15: a.append("--exp-linear-rules")
  if rng.random() < 0.3: a.append("--no-backsymbol")
  if rng.random() < 0.15: a.append("--no-steps")
  if rng.random() < 0.15: a.append("--full-reps")
  if rng.random() < 0.1: a.append("--html-format")
  if rng.random() < 0.15: a.append("--print-macro-ttable")
  if rng.random() < 0.1 and "--no-prover" not in a: a.append("--freeze-prover")
  if rng.random() < 0.1: a.append("--latex")
  if rng.random() < 0.5: a.append("--block-size=%d" % rng.choice((1, 2, 3, 4, 5)))
  else: a.append("--bf-loops=%d" % rng.choice((0, 10, 100, 1000)))
  if rng.random() < 0.2: a.append("--block-mult=%d" % rng.choice((1, 2, 3)))
  x = rng.random()
  if x < 0.5: a.append("--quiet")
  elif x < 0.6 and verbose_ok: a.append("--verbose")
  else: a.append("--print-loops=%d" % rng.choice((1, 7, 100, 1000)))
  return a

num = lambda s: int(s.replace("_", ""))

def one(job, rng, s, tmp, start=0, max_steps=3_000_000):
  tab = ref.parse(s); r = ref.Ref(tab)
  if start: r.set(b"\0", 0, 0, start)
  r.run(max_steps); steps = r.steps if r.halted or r.undefined else None
  a = flags(rng, steps is not None and steps < 3000); loops = rng.choice((50, 500, 3000)) if steps is None or rng.random() < 0.3 else 30000
  if rng.random() < 0.05: loops = 0 if steps is not None and steps < 20000 else loops
  a.append("--max-loops=%d" % loops)
  if start: a.append("--start-state=" + chr(65 + start))
  arg = s; how = rng.random()
  if how < 0.3:   # from a file, by number
    others = [ref.fmt(ref.random_tm(rng, 2, 2, 0.2, 0.2)) for _ in range(rng.randint(0, 4))]; at = rng.randint(0, len(others)); others.insert(at, s)
    ext = rng.choice((".txt", ".pb")); f = os.path.join(tmp, "q%d%s" % (rng.getrandbits(60), ext))
    with bb.IO.Writer(f) as w:
      for x in others: w.write_record(bb.record(x))
    arg = f if at == 0 and rng.random() < 0.5 else "%s:%d" % (f, at); job.count("quick_from_file")
  d = dict(tm=s, flags=a, arg=arg, start=start, halts_at=steps)
  try: p = subprocess.run([sys.executable, os.path.join(V.CODE, "Quick_Sim.py"), *a, "--", arg], capture_output=True, text=True, timeout=40, cwd=tmp)
  except subprocess.TimeoutExpired: job.count("quick_timed_out"); return
  finally:
    if arg != s: os.remove(f)
  job.count("quick_runs"); out = p.stdout
  if p.returncode:
    if "ExpIntException" in p.stderr: job.count("quick_refused"); return
    job.violation("Quick_Sim failed", err=p.stderr[-1500:], **d); return
  halted, undef, inf = "Turing Machine Halted" in out, "reached Undefined transition" in out, "proven Infinite" in out
  d["out"] = out[-700:]
  if halted + undef + inf > 1: job.violation("Quick_Sim prints contradictory verdicts", **d); return
  if inf:
    job.count("quick_infinite"); job.nontrivial((s, str(a)))
    if steps is not None: job.violation("Quick_Sim calls a halting machine infinite", **d)
    return
  if not (halted or undef):
    job.count("quick_undecided"); return
  if steps is None:
    # it may halt later than we looked
    m = re.search(r"^Steps: +(?:\S+  =  )?([0-9_]+)$", out, re.M)
    if m is None or num(m[1]) > max_steps: job.count("quick_halts_late"); return
    job.violation("Quick_Sim reports a halt that does not happen", **d); return
  job.count("quick_halts"); job.nontrivial((s, str(a)))
  cell = tab[r.from_state][r.from_symbol]
  if undef != (cell is None): job.violation("Quick_Sim confuses halting and undefined transitions", **d)
  if undef:
    g = (re.search(r"^State:\s+(\d+)$", out, re.M), re.search(r"^Symbol:\s+(\d+)$", out, re.M))
    if not all(g) or (int(g[0][1]), int(g[1][1])) != (r.from_state, r.from_symbol): job.violation("Quick_Sim names the wrong transition", want=(r.from_state, r.from_symbol), **d)
    job.count("quick_undefined")
  m = re.search(r"^Steps:.*=  ([0-9_]+)$", out, re.M)
  if "--no-steps" in a: pass
  elif not m or num(m[1]) != r.steps: job.violation("Quick_Sim prints the wrong number of steps", **d)
  m = re.search(r"^Nonzeros:.*=  ([0-9_]+)$|^Nonzeros: (0)$", out, re.M); nz = num(m[1] or m[2]) if m else None
  if nz != r.nonzeros(): job.violation("Quick_Sim prints the wrong number of non-blank symbols", want=r.nonzeros(), got=nz, **d)
  if "--no-steps" not in a:   # the break-down adds up
    t = {k: v for k, v in re.findall(r"^(Total|Macro|Chain|Rule):\s+([0-9_]+)\s", out, re.M)}   # the last table counts
    if "Total" in t and (num(t["Total"]) != r.steps or sum(num(v) for k, v in t.items() if k != "Total") != r.steps): job.violation("Quick_Sim: the parts of the step count do not add up", parts=t, **d)
    else: job.count("quick_sums")

def work(job, seed, n, corp, tmp):
  rng = random.Random(seed)
  for _ in range(n):
    x = rng.random(); start = 0
    if x < 0.6: s = ref.hostile_halting(rng, corp, min_steps=rng.choice((1, 10, 40, 150)))[0]
    elif x < 0.8: s = ref.fmt(ref.tnf_tm(rng, *rng.choice(ref.SIZES), 300, halt=rng.random() < 0.7)[0])
    else:
      t = ref.random_tm(rng, *rng.choice(ref.SIZES), 0.1, 0.1); s = ref.fmt(t); start = rng.randrange(len(t))
    try: one(job, rng, s, tmp, start)
    except Exception as e: job.raised(e, tm=s)
  job.sample({"quick_sim": s})
