"""C19: the plain simulators (Python and C++) against the reference executor; the C++ programs under ASan/UBSan/valgrind."""
import os, random, re, shutil, subprocess, sys, tempfile
import vcheck_lib as V, ref, bb, cppbuild as C, recgen as G
from vcheck_lib import Ctx, job_limit
import Direct_Simulator

def machine(rng, kind=None):
  k = kind or rng.choice(("rand", "rand", "rand", "big", "tnf", "tnf", "run"))
  if k == "tnf": return ref.tnf_tm(rng, rng.randint(2, 7), rng.choice((2, 2, 3, 4)), 3000, halt=rng.random() < 0.6, first_1rb=rng.random() < .8)[0]
  if k == "run" and rng.random() < .5:   # leaves marks, then crosses blank tape for ever; would turn back at anything else
    d = rng.randrange(2); nk = rng.randint(2, 5); m = rng.randint(1, 3); q = m
    t = [[(rng.randrange(1, nk), d, i + 1)] + [(rng.randrange(nk), rng.randrange(2), rng.randrange(m + 1)) for _ in range(nk - 1)] for i in range(m)]
    return t + [[(rng.randrange(nk) if rng.random() < .5 else 0, d, q)] + [(rng.randrange(nk), 1 - d, rng.randrange(m + 1)) for _ in range(nk - 1)]]
  if k == "run":   # runs far in one direction, or sweeps ever wider
    d = rng.randrange(2); nk = rng.randint(2, 9)
    return rng.choice(([[(rng.randrange(nk), d, 0)] * nk], [[(1, 1, 1), (1, 0, 0)], [(1, 0, 0), (1, 1, 1)]], [[(1, d, 1), (1, d, 0)], [(1, 1 - d, 0), (1, 1 - d, 1)]]))
  ns, nk = (rng.randint(1, 25), rng.randint(2, 9)) if k == "big" else (rng.randint(1, 6), rng.randint(1 if rng.random() < .1 else 2, 5))
  return ref.random_tm(rng, ns, nk, rng.choice((0, .02, .1)), rng.choice((0, .02, .1)))

def expect(tab, n):
  r = ref.Ref(tab).run(n); return ("Halt" if r.halted or r.undefined else "Unknown", r.steps)

def all_sim(job, seed, P, tmp, n):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  tabs = [machine(rng) for _ in range(n)]; tabs = [t for t in tabs if not any(c and c[2] >= 0 and c[0] >= len(t[0]) for r in t for c in r)]
  steps = rng.choice((0, 1, 2, 10, 99, 1000, 20000)); lines = [ref.fmt(t) + rng.choice(("", "", " Halt 5", "\tx", " | Lin_Recur 3 1", ", y", "#c")) for t in tabs]
  data = "\n".join(lines) + ("\n" if rng.random() < .7 else ""); open(d + "/in", "w").write(data)
  want = [(ref.fmt(t),) + expect(t, steps) for t in tabs]
  for v in ("plain", "san"):
    r = C.run(job, P[v] + "/direct_sim_all", "in", steps, "out_" + v, cwd=d)
    if r is None: continue
    got = [l.split() for l in open(f"{d}/out_{v}").read().splitlines()]
    if r.returncode or len(got) != len(want): job.violation("direct_sim_all: not one result per machine", rc=r.returncode, want=len(want), got=len(got), steps=steps, data=data[:2000]); continue
    for l, w, g in zip(lines, want, got):
      job.count("cpp_results"); job.nontrivial(("all", w))
      if tuple(g) != tuple(map(str, w)): job.violation("direct_sim_all: wrong result", line=l, steps=steps, want=w, got=g)
    m = [int(x) for x in re.findall(r"(?:Total|Halt|Unknown): (\d+)", r.stdout.decode())]
    if m and m != [len(want), sum(w[1] == "Halt" for w in want), sum(w[1] == "Unknown" for w in want)]: job.violation("direct_sim_all: wrong totals", got=m, out=r.stdout.decode()[-300:])
    # single-machine program on a line of the same file
    i = rng.randrange(len(want)); r = C.run(job, P[v] + "/direct_sim", "in", i + 1, steps, cwd=d)
    if r is None: continue
    out = r.stdout.decode(); a = re.search(r"Simulated (\d+)", out); h = re.search(r"Halted at step (\d+)", out); w = want[i]; job.count("cpp_single")
    if r.returncode or not a or int(a[1]) != w[2] or bool(h) != (w[1] == "Halt") or h and int(h[1]) != w[2]: job.violation("direct_sim: wrong result", line=lines[i], steps=steps, want=w, rc=r.returncode, out=out[-300:])
  shutil.rmtree(d)

def config(job, seed, H, n):
  """Configurations of the tree's DirectSimulator class, step by step."""
  rng = random.Random(seed); inp, ws = [], []
  for _ in range(n):
    t = machine(rng); goals, r, s = [], ref.Ref(t), 0; w = []
    for _ in range(rng.randint(1, 6)):
      k = rng.random()
      if k < .4: m = rng.choice((0, 1, 2, 7, 60, 400)); goals.append(f"s{m}"); s = r.steps + m
      elif k < .5: goals.append("c"); s = r.steps
      else: s = rng.choice((0, r.steps, r.steps + 1, r.steps + 50, r.steps + 333, 5000)); goals.append(f"k{s}")
      if s > r.steps and not r.halted: r.run(s)
      w.append((r.steps, int(r.halted), r.state if not r.halted else -1, r.pos, r.support()))
    inp += [ref.fmt(t), " ".join(goals)]; ws.append((ref.fmt(t), goals, w))
  res = C.run(job, H, cwd="/tmp", inp=("\n".join(inp) + "\n").encode())
  if res is None: return
  out = res.stdout.decode().splitlines(); k = 0
  if res.returncode or len(out) != sum(len(w) for _, _, w in ws): job.violation("simulator stopped early", rc=res.returncode, err=res.stderr.decode()[-500:]); return
  for t, goals, w in ws:
    for g, (st, h, q, pos, sup) in zip(goals, w):
      f = out[k].split(" "); k += 1; job.count("configurations"); job.nontrivial(("conf", t, g, st))
      lo, cells = int(f[7]), bytes(map(int, f[8])); raw = cells.lstrip(b"\0"); l0 = lo + len(cells) - len(raw); raw = raw.rstrip(b"\0")
      got = (int(f[0]), int(f[1]), int(f[2]), int(f[5]), (l0, raw) if raw else (0, b""))
      if got != (st, h, q, pos, sup) or f[9] != "00" or int(f[6]) != (cells[pos - lo] if 0 <= pos - lo < len(cells) else 0):
        job.violation("C++ simulator: wrong configuration", tm=t, goals=goals, at=g, want=str((st, h, q, pos, sup))[:400], got=str(got)[:400])

MAL = ("state", "symbol", "ragged", "short", "empty", "dir")
def malform(rng, tab):
  """-> (line, surely malformed)"""
  s = ref.fmt(tab); k = rng.choice(MAL + ("byte",) * 6); ns, nk = len(tab), len(tab[0]); cells = [i * (3 * nk + 1) + 3 * j + 1 for i in range(ns) for j in range(nk) if tab[i][j] and tab[i][j][2] >= 0]
  if k in ("state", "symbol", "dir") and not cells: k = "empty"
  c = rng.choice(cells) if cells else 0
  if k == "state" and ns < 25: return s[:c+1] + chr(65 + rng.randint(ns, 24)) + s[c+2:], True
  if k == "symbol" and nk < 10: return s[:c-1] + str(rng.randint(nk, 9)) + s[c:], True
  if k == "dir": return s[:c] + rng.choice("lrXS-0 ".replace(" ", "")) + s[c+1:], True
  if k == "ragged" and ns > 1 and nk > 1:
    rows = s.split("_"); i = rng.randrange(ns); rows[i] = rng.choice((rows[i][:-3], rows[i] + "1RA")); return "_".join(rows), True
  if k == "short" and s[-1] != "-": return s[:-rng.randint(1, 2)], True
  if k == "empty": return rng.choice(("", "#", " ", "|", "_", "__", ",")), True
  b = list(s)
  for _ in range(rng.randint(1, 3)):
    i = rng.randrange(len(b) + 1); x = rng.random(); ch = rng.choice("019ABZ_-LR \t\r#|,\x00\xff~" + s)
    if x < .4 and i < len(b): b[i] = ch
    elif x < .7: b.insert(i, ch)
    elif i < len(b): del b[i]
  return "".join(b), False

def bad_input(job, seed, P, tmp, n):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp)
  for _ in range(n):
    line, bad = malform(rng, machine(rng)); good = ref.fmt(ref.tnf_tm(rng, 3, 2, 200)[0]); first = rng.random() < .3
    open(d + "/in", "wb").write(((good + "\n" if first else "") + line + rng.choice(("\n", "", "\r\n"))).encode("latin1"))
    if bad and line == "" and os.path.getsize(d + "/in") == (len(good) + 1 if first else 0): continue    # no line at all
    which = rng.choice(("direct_sim_all", "direct_sim", "lin_recur", "lb_enum_continue", "lr_enum_continue")); ln = 2 if first else 1
    a = dict(direct_sim_all=("in", 50, "o"), direct_sim=("in", ln, 50), lin_recur=("in", ln, 6), lb_enum_continue=("in", 4, "o", 0), lr_enum_continue=("in", 4, "o", "p", "q", 0, "true"))[which]
    if which.endswith("continue") and not bad: a = dict(lb_enum_continue=("in", 1, "o", 0), lr_enum_continue=("in", 1, "o", "p", "q", 0, "false"))[which]   # keep the trees small
    try: r = C.run(job, P["san"] + "/" + which, *a, cwd=d, timeout=60)
    except subprocess.TimeoutExpired: job.count("timeouts"); continue
    job.count("bad_lines_sure" if bad else "bad_lines_maybe"); job.nontrivial(("bad", which, line))
    if r is not None and bad and r.returncode == 0: job.violation("malformed machine accepted", program=which, line=line, out=r.stdout.decode("latin1")[-300:])
  for which, a in (("direct_sim", ("nofile", 1, 50)), ("direct_sim", ("in", 99, 50)), ("lin_recur", ("nofile", 1, 5)), ("lin_recur", ("in", 99, 5)), ("direct_sim", ("in",)), ("lb_enum", (1, 2, 20, "o")), ("lr_enum", (1, 2, 20, "o", "p", "q", "true"))):
    r = C.run(job, P["san"] + "/" + which, *a, cwd=d); job.count("bad_arguments")
    if r is not None and r.returncode == 0 and which in ("direct_sim", "lin_recur"): job.violation("a machine that is not there was simulated", program=which, args=a, out=r.stdout.decode("latin1")[-300:])
  shutil.rmtree(d)

def memcheck(job, seed, P, tmp):
  rng = random.Random(seed); d = tempfile.mkdtemp(dir=tmp); M = P["memcheck"]
  open(d + "/in", "w").write("".join(ref.fmt(machine(rng, rng.choice(("rand", "tnf")))) + "\n" for _ in range(5)))
  for which, a in [("direct_sim_all", ("in", rng.choice((0, 1, 500)), "o")), ("lin_recur", ("in", rng.randint(1, 5), 0)), ("lin_recur", ("in", rng.randint(1, 5), rng.choice((1, 2, 6)))), ("lb_enum", (2, 2, rng.choice((0, 1, 8)), "o", "n")),
                   ("lr_enum", (2, 2, rng.choice((0, 1, 20)), "o", "p", "q", rng.choice(("true", "false")))), ("lr_enum_continue", ("in", 1, "o", "p", "q", 0, "false"))]:
    C.run(job, M + "/" + which, *a, cwd=d, valgrind=True)
  shutil.rmtree(d)

def python_sim(job, seed, n):
  rng = random.Random(seed)
  for _ in range(n):
    tab = machine(rng); tm = G.make(tab); fs, fk = list(range(len(tab))), list(range(len(tab[0])))
    if rng.random() < .3 and len(fk) > 1:   # the same machine with other names, starting elsewhere than state 0 on symbol 0
      rng.shuffle(fs); rng.shuffle(fk); new = [[None] * len(fk) for _ in fs]; job.count("py_renamed")
      tab = [[x or (1, 1, -1) for x in row] for row in tab]   # an undefined transition writes the symbol named 1
      for a, row in enumerate(tab):
        for b, x in enumerate(row): new[fs[a]][fk[b]] = (fk[x[0]], x[1], fs[x[2]] if x[2] >= 0 else -1)
      tm = G.make(new); tm.init_state = tm.states[fs[0]]; tm.init_symbol = tm.symbols[fk[0]]
    S, K = {v: i for i, v in enumerate(fs)}, {v: i for i, v in enumerate(fk)}; K.setdefault(1, 1)   # the halting write of a machine with one symbol
    r = ref.Ref(tab); sim = Direct_Simulator.DirectSimulator(tm); other = None; ops = []
    def check(s, rr, what):
      job.count("py_configurations"); t = s.tape
      lo, hi = rr.minpos - 2, rr.maxpos + 3; cells = bytes(K[int(t.read_pos(p))] for p in range(lo, hi))
      got = (s.step_num, bool(s.halted), t.position, cells, t.count_nonzero(), t.pos_leftmost(), t.pos_rightmost(), K[int(t.read())])
      want = (rr.steps, rr.halted, rr.pos, rr.cells(lo, hi - lo), rr.nonzeros(), rr.minpos, rr.maxpos, rr.get(rr.pos))
      if not s.halted: got += (S[int(s.state)],); want += (rr.state,)
      elif what == "main": got += (s.halt_score, S[int(s.halt_from_state)], K[int(s.halt_from_symbol)]); want += (rr.nonzeros(), rr.from_state, rr.from_symbol)
      if got != want: job.violation("Python direct simulator: wrong configuration", tm=ref.fmt(tab), ops=ops, which=what, want=str(want)[:500], got=str(got)[:500]); return False
      return True
    for _ in range(rng.randint(1, 7)):
      k = rng.random()
      if k < .4:
        m = rng.choice((0, 1, 3, 40)); ops.append(("step", m))
        for _ in range(m): sim.step()
        r.run(r.steps + m)
      elif k < .6: other = (sim.copy(), r.steps); ops.append(("copy",))
      else: m = r.steps + rng.choice((-3, 0, 1, 30, 700, 700, 4000)); ops.append(("seek", m)); sim.seek(m); r.run(max(m, r.steps)) if m > r.steps else None
      job.nontrivial(("py", ref.fmt(tab), str(ops)))
      if not check(sim, r, "main"): break
      if other and rng.random() < .5:   # a copy goes its own way
        c, s0 = other; c.seek(s0 + 25); x = ref.Ref(tab).run(s0 + 25); other = None
        if not check(c, x, "copy") or not check(sim, r, "main after copy ran"): break
    # arbitrary writes and reads on the tape
    z = rng.choice((0, 0, 1, 3, None)); t = Direct_Simulator.DirectTape(z); model, pos, lo, hi = {}, 0, 0, 0
    for _ in range(rng.randint(1, 60)):
      k = rng.randrange(4)
      if k == 0: d = rng.randrange(2); t.move(d); pos += 1 if d else -1; lo, hi = min(lo, pos), max(hi, pos)
      elif k == 1: v = rng.randrange(4); t.write(v); model[pos] = v
      elif k == 2: p = pos + rng.randint(-30, 30); v = rng.randrange(4); t.write_pos(v, p); model[p] = v; lo, hi = min(lo, p), max(hi, p)
      else: t = t.copy()
      q = pos + rng.randint(-40, 40); job.count("tape_ops")
      if (t.read(), t.read_pos(q), t.position, t.pos_leftmost(), t.pos_rightmost(), t.count_nonzero()) != (model.get(pos, z), model.get(q, z), pos, lo, hi, sum(v != z for v in model.values())):
        job.violation("direct tape does not hold what was written", model=str(model), pos=pos, q=q); break
  # the command line
  tab = ref.tnf_tm(rng, rng.randint(2, 4), 2, 500, halt=True)[0]; s = rng.choice((0, 5, 100, 3000)); w = ref.Ref(tab).run(s)
  p = subprocess.run([sys.executable, os.path.join(V.CODE, "Direct_Simulator.py"), ref.fmt(tab), str(s)], capture_output=True, text=True); job.count("py_cli")
  a = re.search(r"Simulated ([\d_]+) steps", p.stdout); h = re.search(r"Halted with score ([\d_]+) at step ([\d_]+)", p.stdout)
  if p.returncode or not a or int(a[1]) != w.steps or bool(h) != w.halted or h and (int(h[1]), int(h[2])) != (w.nonzeros(), w.steps): job.violation("Direct_Simulator.py: wrong output", tm=ref.fmt(tab), steps=s, out=p.stdout[-300:], err=p.stderr[-500:])

def guard(job, f, *a):
  with job_limit(500): FUNCS[f](job, *a)
FUNCS = dict(all_sim=all_sim, config=config, bad_input=bad_input, memcheck=memcheck, python_sim=python_sim)

if __name__ == "__main__":
  ctx = Ctx("C19"); rng = ctx.rng; ref.lib(); tmp = tempfile.mkdtemp(prefix="c19_")
  try:
    P = C.build(tmp, ["plain", "san", "memcheck"]); H = C.harness(tmp, P["san"], "san", os.path.join(os.path.dirname(C.__file__), "sim_harness.cpp"), "h")
    jobs = [("memcheck", rng.random(), P, tmp) for _ in range(ctx.n(6, 60))] + [("all_sim", rng.random(), P, tmp, ctx.n(60, 120)) for _ in range(ctx.n(32, 400))] + [("bad_input", rng.random(), P, tmp, ctx.n(40, 60)) for _ in range(ctx.n(32, 400))] + [("python_sim", rng.random(), ctx.n(25, 50)) for _ in range(ctx.n(32, 400))]
    if H: jobs += [("config", rng.random(), H, ctx.n(50, 80)) for _ in range(ctx.n(32, 400))]
    else: ctx.assumptions.append("the driver of the C++ simulator class does not compile against this tree: the C++ side is judged by its programs only")
    ctx.pmap(guard, jobs)
  finally: shutil.rmtree(tmp)
  ctx.assumptions += ["memory errors are those clang's ASan/UBSan, libstdc++ assertions and valgrind memcheck can see on the runs made", "malformed means: next state or running symbol outside the table, ragged rows, a cut-off transition, a bad direction letter, an empty line; other odd lines may be taken or refused but must not crash"]
  for k, m in (("cpp_results", 1500), ("cpp_single", 30), ("bad_lines_sure", 200), ("bad_lines_maybe", 200), ("valgrind_runs", 10), ("py_configurations", 1500), ("program_runs", 500)): ctx.require(k, m)
  if H: ctx.require("configurations", 2000)
  ctx.finish("program_runs", "random machines 1x1..25x9, TNF walks, wide sweeps; step budgets 0..20000; malformed lines; non-trivial: a distinct machine/result or malformed line")
