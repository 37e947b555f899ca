"""C25: the driver scripts that chain enumeration, filters, categorising and merging: no machine lost, duplicated or filed wrongly."""
import traceback, collections, glob, gzip, os, random, re, shutil, subprocess, sys, tempfile
import vcheck_lib as V, ref, bb, recgen as G, cppbuild as C
from vcheck_lib import Ctx, job_limit, quiet
pb = bb.io_pb2; H = bb.Halting_Lib
REPO = os.environ.get("VERIF_REPO", "/repo")
CATS = ("halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite", "unknown")

# rm stand-in: removes inside the scratch directory only, and writes down anything else it was asked to remove
RM = '''#!/bin/bash
for a in "$@"; do
  case "$a" in
    -*) ;;
    *) p=$(realpath -m -- "$a"); case "$p/" in "$SCRATCH"/?*) /bin/rm -rf -- "$p" ;; *) echo "$p" >> "$SCRATCH/outside" ;; esac ;;
  esac
done
'''
# a filter of ours, obeying a table of verdicts; can also misbehave
FILTER = '''import argparse, json, sys, os
sys.path.insert(0, sys.argv[1]); table = json.load(open(sys.argv[2])); fault = sys.argv[3]
import IO, Halting_Lib as H, io_pb2
p = argparse.ArgumentParser(); p.add_argument("--infile"); p.add_argument("--outfile"); a = p.parse_args(sys.argv[4:])
with IO.Reader(a.infile) as r: recs = list(r)
if fault == "die_first": sys.exit(7)
if fault == "lose" and recs: recs.pop(len(recs) // 2)
if fault == "twice" and recs: recs.append(recs[0])
with IO.Proto.Writer(a.outfile) as w:
  for i, x in enumerate(recs):
    k, n = table[x.ttable_str()]; s = x.proto.status
    if k == "halt": H.set_halting(s, n, 3, 0, 0)
    elif k == "halt.unk": s.halt_status.is_halting = True; s.halt_status.is_decided = True
    elif k == "qhalt": H.set_not_halting(s, io_pb2.INF_PROOF_SYSTEM); H.set_inf_recur(s, [0], {0: 1, 1: n - 1})
    elif k == "qhalt.unk": H.set_not_halting(s, io_pb2.INF_PROOF_SYSTEM); s.quasihalt_status.is_quasihalting = True; s.quasihalt_status.is_decided = True
    elif k == "infinite": H.set_not_halting(s, io_pb2.INF_CTL)
    w.write_record(x)
    if fault == "die_midway" and i >= len(recs) // 2: w.flush(); os._exit(9)
if fault == "cut" and os.path.getsize(a.outfile) > 3: os.truncate(a.outfile, os.path.getsize(a.outfile) - 2)
if fault == "die_last": sys.exit(5)
'''

class Room:
  """Scratch directory with its own command path; nothing outside it can be removed."""
  def __init__(self, tmp):
    self.d = os.path.realpath(tempfile.mkdtemp(dir=tmp)); self.user = "vc25_" + os.path.basename(self.d)
    os.mkdir(self.d + "/bin"); self.put("bin/rm", RM, True); self.put("filter_.py", FILTER)
    for n in ("python3", "python"): self.put("bin/" + n, f'#!/bin/sh\nexec {sys.executable} "$@"\n', True)
    self.env = {k: v for k, v in os.environ.items() if not k.startswith("SLURM")}
    self.env.update(PATH=f"{self.d}/bin:{os.environ['PATH']}", SCRATCH=self.d, USER=self.user, PYTHONDONTWRITEBYTECODE="1", HOME=self.d)
  def put(self, name, text, x=False):
    p = os.path.join(self.d, name); open(p, "w").write(text)
    if x: os.chmod(p, 0o755)
    return p
  def sh(self, job, *args, cwd=REPO, **env):
    r = subprocess.run(["bash", *map(str, args)], cwd=cwd, env=dict(self.env, **env), capture_output=True, text=True, timeout=600); job.count("driver_runs"); return r
  def __enter__(self): return self
  def __exit__(self, *a):
    shutil.rmtree(self.d, ignore_errors=True)
    for p in glob.glob("/tmp/" + self.user + "-*"): shutil.rmtree(p, ignore_errors=True)

def machines(rng, n):
  """Distinct machines as an enumeration leaves them: in normal form, with undefined transitions or one halt."""
  out = {}
  while len(out) < n:
    ns, nk = rng.choice(((2, 2), (3, 2), (2, 3), (4, 2), (3, 3))); t, r = ref.tnf_tm(rng, ns, nk, 300, halt=rng.random() < .5)
    if t[0][0] != (1, 1, 1): continue
    if sum(1 for row in t for c in row if c is None or c[2] < 0) == 0: continue
    if sum(1 for row in t for c in row if c and c[2] < 0) > 1: continue
    out[ref.fmt(t)] = t
  return out
def size(tab):
  """Complete machines with one halt that a partial one stands for (as documented in Count.py)."""
  ns, nk = len(tab), len(tab[0]); run = [c for row in tab for c in row if c and c[2] >= 0]; u = sum(c is None for row in tab for c in row); h = any(c and c[2] < 0 for row in tab for c in row)
  su, ku = 1 + max(c[2] for c in run), 1 + max(c[0] for c in run); m = 1
  for i in range(nk - ku + 1, nk - 1): m *= i
  for i in range(ns - su + 1, ns - 1): m *= i
  q = 2 * ns * nk
  return m * (q ** u if h else u * q ** (u - 1) if u else 0)
def kinds(rng, ms):
  """A verdict for each machine, as our own filter is to give it."""
  return {s: rng.choice((("halt", rng.randint(0, 999)), ("halt", 999), ("halt", rng.choice((1000, 10**30))), ("halt.unk", 0), ("qhalt", rng.randint(2, 999)), ("qhalt", rng.choice((1000, 10**25))), ("qhalt.unk", 0), ("infinite", 0), ("unknown", 0), ("unknown", 0), ("unknown", 0))) for s in ms}
def cat(k):
  return k[0] if k[0] not in ("halt", "qhalt") else k[0] + (".small" if k[1] < 1000 else ".large")
def read(p):
  with bb.IO.Reader(p) as r: return list(r)
def names(recs): return sorted(r.ttable_str() for r in recs)
def txt(p): return sorted(l.split()[0] for l in open(p).read().splitlines() if l.strip())
def outside(job, room, what):
  p = room.d + "/outside"
  if os.path.exists(p):
    bad = [l for l in open(p).read().splitlines() if not l.startswith("/tmp/" + room.user)]
    if bad: job.violation(what + ": removes something outside the directory it was given", paths=bad[:5])

def real_filter(rng):
  return rng.choice((
    ("Reverse_Engineer_Filter.py",),
    ("CTL_Filter.py", "--type=" + rng.choice(("CTL1", "CTL2", "CTL3", "CTL4")), "--max-block-size=2", "--cutoff=100"),
    ("CPS_Filter.py", "--max-block-size=2", "--max-steps=1000", "--max-iters=50"),
    ("Backtracking_Filter.py", "--steps=10"),
    ("Enumerate.py", "--max-loops=%d" % rng.choice((20, 200)), "--lin-steps=%d" % rng.choice((0, 100)), "--no-ctl", "--no-reverse-engineer", "--time=0", "--force"),
    ("Enumerate.py", "--block-size=2", "--max-loops=100", "--lin-steps=0", "--no-ctl", "--no-reverse-engineer", "--time=0", "--force")))
def truth(job, recs, what, **d):
  """Decided results of real filters against the machine."""
  for r in recs:
    st = r.proto.status.halt_status
    if not st.is_decided: continue
    x = ref.Ref(ref.parse(r.ttable_str())).run(100_000); job.count("verdicts_checked")
    if st.is_halting != bool(x.halted or x.undefined) and (st.is_halting or x.halted or x.undefined): job.violation(what + ": untrue verdict", tm=r.ttable_str(), **d)
def conserved(job, what, before, after, exact, **d):
  """Machines before and after a stage: the same ones, or (when the stage extends machines) as many complete ones."""
  job.count("machines_traced", len(before))
  if exact:
    if sorted(before) != sorted(after): job.violation(what + ": the machines which come out are not those which went in", lost=sorted((collections.Counter(before) - collections.Counter(after)).elements())[:3], extra=sorted((collections.Counter(after) - collections.Counter(before)).elements())[:3], n=(len(before), len(after)), **d)
  else:
    a, b = (sum(size(ref.parse(s)) for s in x) for x in (before, after))
    if a != b: job.violation(what + ": the stage does not stand for the same machines as its input", want=a, got=b, n=(len(before), len(after)), **d)
    if len(set(after)) != len(after): job.violation(what + ": a machine twice", **d)
def partition(job, what, work, out, **d):
  """Every record of `out` in the one category file of its result."""
  have = {}
  for c in CATS:
    p = f"{work}/{c}.pb"
    if not os.path.exists(p): job.violation(f"{what}: no {c} file", **d); return None
    have[c] = [r.proto.SerializeToString(deterministic=True) for r in read(p)]
  want = collections.defaultdict(list)
  for r in out:
    s = r.proto.status
    if not s.halt_status.is_decided: c = "unknown"
    elif s.halt_status.is_halting: v = H.get_big_int(s.halt_status.halt_steps); c = "halt." + ("unk" if v is None else "small" if v < 1000 else "large")
    elif s.quasihalt_status.is_quasihalting: v = H.get_big_int(s.quasihalt_status.quasihalt_steps); c = "qhalt." + ("unk" if v is None else "small" if v < 1000 else "large")
    else: c = "infinite"
    want[c].append(r.proto.SerializeToString(deterministic=True)); job.count("filed_" + c)
  for c in CATS:
    if sorted(want[c]) != sorted(have[c]): job.violation(f"{what}: {c} does not hold the records with that result", want=len(want[c]), got=len(have[c]), **d)
  return have

def chain(job, seed, tmp):
  """Tools/filter.sh, several filters one after another."""
  rng = random.Random(seed)
  with Room(tmp) as R:
    root = R.d + "/data"; os.mkdir(root); ms = machines(rng, rng.choice((0, 1, 8, 30, 90)))
    with bb.IO.Proto.Writer(root + "/unknown.pb") as w:
      for s, t in ms.items(): w.write_record(bb.TM_Record.TM_Record(tm_enum=bb.TM_Enum.TM_Enum(G.make(t), allow_no_halt=False)))
    hold = sorted(ms)
    for stage in range(rng.randint(1, 3)):
      mine = rng.random() < .5; info = dict(stage=stage)
      if mine:
        ks = kinds(rng, hold); import json
        f = ["python3", R.d + "/filter_.py", REPO + "/Code", R.put(f"t{stage}.json", json.dumps(ks)), "none"]; exact = True
      else:
        a = real_filter(rng); f = [f"{REPO}/Code/{a[0]}", *a[1:]]; exact = a[0] != "Enumerate.py"; info["filter"] = " ".join(a)
      sub = rng.choice(("s", "rev_eng", "b2_1k")) + (str(stage) if rng.random() < .7 else "")
      r = R.sh(job, REPO + "/Tools/filter.sh", root, sub, *f); outside(job, R, "filter.sh")
      if r.returncode: job.violation("filter.sh failed", rc=r.returncode, err=r.stderr[-700:], **info); return
      W = f"{root}/{sub}"; job.count("local_stages"); job.nontrivial((seed, stage))
      got = names(read(W + "/in.pb"))
      if got != hold: job.violation("filter.sh: the stage did not start from the machines left over before", n=(len(hold), len(got)), **info); return
      out = read(W + "/out.pb"); conserved(job, "filter.sh", hold, names(out), exact, **info)
      partition(job, "filter.sh", W, out, **info)
      if not mine: truth(job, out, "filter.sh", **info)
      left = names(r for r in out if not r.proto.status.halt_status.is_decided)
      if mine and left != sorted(s for s in hold if ks[s][0] == "unknown"): job.violation("filter.sh: other machines are left over than the filter left undecided", **info)
      new = names(read(root + "/unknown.pb")); job.count("left_over", len(left))
      if new != left: job.violation("filter.sh: the machines handed to the next stage are not the undecided ones", want=len(left), got=len(new), missing=sorted(set(left) - set(new))[:3], extra=sorted(set(new) - set(left))[:3], **info); return
      if os.path.exists(root + "/unknown.txt"):   # skipped only if large
        if txt(root + "/unknown.txt") != left: job.violation("filter.sh: the text list of undecided machines is not that of this stage", n=(len(left), len(txt(root + "/unknown.txt"))), **info)
        job.count("text_lists")
      elif os.path.getsize(root + "/unknown.pb") < 1_000_000: job.violation("filter.sh: no text list of the undecided machines", size=os.path.getsize(root + "/unknown.pb"), **info)
      hold = left
    if "filter.sh" not in open(root + "/filter_log.txt").read() if os.path.exists(root + "/filter_log.txt") else False: job.violation("filter.sh: stage not logged")

def cluster(job, seed, tmp):
  """Tools/sbatch_filter_*.sh: split, one task per piece (some fail and are run again), merge."""
  import json
  rng = random.Random(seed)
  with Room(tmp) as R:
    root = R.d + "/data"; os.mkdir(root); ms = machines(rng, rng.choice((1, 5, 12, 30))); hold = sorted(ms); sub = rng.choice(("x", "ctl2"))
    lines = [s + rng.choice(("", " note", " | 7")) for s in rng.sample(hold, len(hold))]; open(root + "/unknown.txt", "w").write("".join(l + "\n" for l in lines)); start = open(root + "/unknown.txt").read()
    n = rng.choice((1, 2, 3, 4) * 5 + (11,)); W = f"{root}/{sub}"
    if rng.random() < .3: os.makedirs(W + "/split/00000000"); open(W + "/split/00000000/success", "w").close(); open(W + "/split/00000000/unknown.txt", "w").write("1RB1LA_1LA1LB\n")   # left by an earlier run
    r = R.sh(job, REPO + "/Tools/sbatch_filter_setup.sh", root, sub, n); outside(job, R, "sbatch_filter_setup.sh")
    if r.returncode: job.violation("sbatch_filter_setup.sh failed", err=r.stderr[-600:]); return
    parts = sorted(os.listdir(W + "/split/in")); pieces = [txt(f"{W}/split/in/{p}") for p in parts]; job.count("pieces", len(parts))
    if len(parts) != n or sorted(sum(pieces, [])) != hold: job.violation("sbatch_filter_setup.sh: the pieces do not make up the input", pieces=[len(p) for p in pieces], want=len(hold)); return
    if not os.path.exists(W + "/in.txt") or open(W + "/in.txt").read() != start: job.violation("sbatch_filter_setup.sh: the input was not kept with the run", size=len(start))
    ks = kinds(rng, hold); table = R.put("t.json", json.dumps(ks)); a = real_filter(rng) if rng.random() < .35 else None; exact = not a or a[0] != "Enumerate.py"; info = dict(filter=" ".join(a) if a else "ours")
    faults = ("none", "none", "none", "die_first", "die_midway", "die_last", "lose", "twice", "cut"); ok = [False] * n; ever = [False] * n
    def finish():
      return R.sh(job, REPO + "/Tools/sbatch_filter_finish.sh", root, sub, n)
    for rnd in range(4):
      for i in rng.sample(range(n), n):
        if ok[i] and rng.random() < .5: continue
        if ok[i]: job.count("repeated_tasks")
        fault = rng.choice(faults) if rnd < 2 else "none"
        if fault in ("lose", "twice", "cut", "die_midway") and not pieces[i]: fault = "none"
        cmd = [f"{REPO}/Code/{a[0]}", *a[1:]] if a and fault == "none" else [R.d + "/filter_.py", REPO + "/Code", table, fault]
        off = rng.choice((0, 0, i)); r = R.sh(job, REPO + "/Tools/sbatch_filter_array.sh", W + "/split", off, *cmd, SLURM_ARRAY_TASK_ID=str(i - off)); outside(job, R, "sbatch_filter_array.sh")
        job.count("tasks"); done = os.path.exists(f"{W}/split/{i:08d}/success")
        if fault == "none":
          if r.returncode or not done: job.violation("sbatch_filter_array.sh: a task in order is reported as failed", rc=r.returncode, err=r.stderr[-600:], **info); return
        else:
          job.count("failed_tasks"); job.count("fault_" + fault)
          if done: job.violation("sbatch_filter_array.sh: a task that failed or lost machines is marked as finished", fault=fault, rc=r.returncode, out=r.stdout[-300:], **info); return
          if not r.returncode: job.violation("sbatch_filter_array.sh: a failed task exits with success", fault=fault, **info); return
        ok[i] = fault == "none"
      if all(ok):
        if rnd >= 2 or rng.random() < .4: break
        continue
      before = open(root + "/unknown.txt").read(); r = finish(); job.count("early_merges"); outside(job, R, "sbatch_filter_finish.sh")
      if not r.returncode: job.violation("sbatch_filter_finish.sh: merged although a task has not finished", finished=ok, **info); return
      if open(root + "/unknown.txt").read() != before: job.violation("sbatch_filter_finish.sh: an incomplete run changed the list for the next stage", finished=ok, **info); return
    r = finish(); outside(job, R, "sbatch_filter_finish.sh"); job.count("merges"); job.nontrivial(seed)
    if r.returncode: job.violation("sbatch_filter_finish.sh failed", rc=r.returncode, err=r.stderr[-600:], **info); return
    out = [x for i in range(n) for x in read(f"{W}/split/{i:08d}/out.pb")]
    conserved(job, "sbatch_filter", hold, names(out), exact, **info)
    partition(job, "sbatch_filter_finish.sh", W, out, **info)
    if a: truth(job, out, "sbatch_filter", **info)
    left = names(x for x in out if not x.proto.status.halt_status.is_decided); new = txt(root + "/unknown.txt"); job.count("left_over", len(left))
    if not a and left != sorted(s for s in hold if ks[s][0] == "unknown"): job.violation("sbatch_filter: other machines are left over than the filter left undecided", **info)
    if new != left: job.violation("sbatch_filter_finish.sh: the machines handed to the next stage are not the undecided ones", missing=sorted(set(left) - set(new))[:3], extra=sorted(set(new) - set(left))[:3], n=(len(left), len(new)), **info)

def lines(p):
  if os.path.exists(p + ".gz"): return sorted(gzip.open(p + ".gz", "rt").read().splitlines())
  return sorted(open(p).read().splitlines())
def parallel(job, seed, exe, tmp, kind):
  """cpp/scripts/*_local_parallel.sh against one process doing all of it."""
  rng = random.Random(seed)
  with Room(tmp) as R:
    for f in ("lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue"): shutil.copy(f"{exe}/{f}", R.d)
    shutil.copytree(REPO + "/cpp/scripts", R.d + "/scripts"); d = R.d
    ns, nk = rng.choice(((2, 2), (2, 2), (3, 2), (2, 3))); top = rng.choice((20, 60, 130)); init = rng.choice((1, 2, 5, 10)); n = rng.choice((1, 2, 3, 5, 12)); info = dict(cls=(ns, nk), init=init, max=top, processes=n)
    stale = rng.random() < .4
    if kind == "lb":
      base = f"{d}/data/lazy_beaver/{ns}x{nk}/{init}"
      if stale: os.makedirs(base); open(base + "/steps_part_9_of_10", "w").write("999999\t1RB---\n")
      r = R.sh(job, "scripts/lb_enum_local_parallel.sh", ns, nk, init, top, n, cwd=d); outside(job, R, "lb_enum_local_parallel.sh")
      if r.returncode: job.violation("lb_enum_local_parallel.sh failed", err=r.stderr[-600:], **info); return
      q = subprocess.run([d + "/lb_enum", str(ns), str(nk), str(top), "w", "n"], cwd=d, capture_output=True, text=True)
      got = [l.split("\t") for l in open(base + "/steps_final").read().splitlines()]; want = [l.split("\t") for l in open(d + "/w").read().splitlines()]
      job.count("parallel_lb"); job.nontrivial((kind, seed)); job.count("step_counts", len(want))
      if sorted(int(x[0]) for x in got) != sorted({int(x[0]) for x in want}): job.violation("lb_enum_local_parallel.sh: other step counts than one process finds", missing=sorted({int(x[0]) for x in want} - {int(x[0]) for x in got})[:5], extra=sorted({int(x[0]) for x in got} - {int(x[0]) for x in want})[:5], **info)
      for x in got:
        t = ref.Ref(ref.parse(x[1])).run(top + 5)
        if not t.halted or t.steps != int(x[0]): job.violation("lb_enum_local_parallel.sh: the example does not take that many steps", line="\t".join(x), **info); break
      return
    nh = rng.choice(("true", "false")); gz = rng.choice(("true", "false")); only = rng.choice(("false", "false", "true")) if kind == "lr" else None
    base = f"{d}/data/lin_recur/{ns}x{nk}/{top}/{n}"
    if stale:
      os.makedirs(base)
      for x in ("halt_part_9_of_%d" % n, "inf_part_9_of_%d" % n, "unknown_part_9_of_%d" % n): open(f"{base}/{x}", "w").write("1RB---_---\n")
    s = "lr_enum_local_parallel.sh" if kind == "lr" else "lr_enum_local_parallel_dev_null.sh"
    args = [ns, nk, nh, init, top, n] + ([gz] + ([only] if only == "true" or only and rng.random() < .5 else []) if gz == "true" or only == "true" or rng.random() < .5 else [])
    info["args"] = args; r = R.sh(job, "scripts/" + s, *args, cwd=d); outside(job, R, s)
    if r.returncode: job.violation(s + " failed", rc=r.returncode, err=r.stderr[-600:], **info); return
    q = subprocess.run([d + "/lr_enum", str(ns), str(nk), str(top), "h", "i", "u", nh], cwd=d, capture_output=True, text=True)
    job.count("parallel_" + kind); job.nontrivial((kind, seed))
    for c, f in (("halt", "h"), ("inf", "i"), ("unknown", "u")):
      if c != "unknown" and (only == "true" or kind != "lr"): continue
      w = sorted(open(f"{d}/{f}").read().splitlines()); g = lines(f"{base}/{c}_final.txt"); job.count("parallel_machines", len(w))
      k = lambda L: sorted(l.split(" | ")[0].strip() for l in L)
      if k(g) != k(w): job.violation(f"{s}: other {c} machines than one process finds", n=(len(w), len(g)), missing=sorted(set(k(w)) - set(k(g)))[:3], extra=sorted(set(k(g)) - set(k(w)))[:3], **info)

def split(job, seed, tmp):
  """cpp/scripts/shuffle_split.py: the pieces make up the list, whatever their number."""
  rng = random.Random(seed)
  with Room(tmp) as R:
    for _ in range(12):
      L = rng.choice((0, 1, 2, rng.randint(3, 70), rng.randint(50, 2000), rng.randint(2000, 20000))); n = rng.randint(1, 64); ls = [f"{rng.randint(0, L)} m{rng.randint(0, 9)}\n" for _ in range(L)]
      p = R.put("list", "".join(ls)); r = R.sh(job, "python3", REPO + "/cpp/scripts/shuffle_split.py", p, n); job.count("splits"); job.nontrivial(("split", L, n))
      if r.returncode: job.violation("shuffle_split.py failed", err=r.stderr[-400:], lines=L, pieces=n); return
      got = [l for i in range(n) for l in open(f"{p}.part_{i}_of_{n}")]
      if sorted(got) != sorted(ls): job.violation("shuffle_split.py: the pieces do not make up the list", lines=L, pieces=n, got=len(got)); return

def guard(job, f, *a):
  try:
    with job_limit(600): FUNCS[f](job, *a)
  except (ValueError, IndexError, KeyError) as e: job.violation("the output of a script cannot be read: " + repr(e)[:200], job=f, tb=traceback.format_exc()[-1500:])
FUNCS = dict(split=split, chain=chain, cluster=cluster, parallel=parallel)

if __name__ == "__main__":
  ctx = Ctx("C25"); rng = ctx.rng; tmp = tempfile.mkdtemp(prefix="c25_")
  try:
    exe = C.build(tmp, ["plain"])["plain"]; os.mkdir(tmp + "/r")
    jobs = [("chain", rng.random(), tmp + "/r") for _ in range(ctx.n(24, 240))] + [("cluster", rng.random(), tmp + "/r") for _ in range(ctx.n(24, 240))] + [("parallel", rng.random(), exe, tmp + "/r", k) for k in ("lr", "lr", "lb", "null") for _ in range(ctx.n(6, 60))]
    jobs += [("split", rng.random(), tmp + "/r") for _ in range(ctx.n(20, 200))]
    rng.shuffle(jobs); ctx.pmap(guard, jobs)
  finally: shutil.rmtree(tmp, ignore_errors=True)
  for k, m in (("local_stages", 20), ("merges", 15), ("splits", 200), ("repeated_tasks", 3), ("failed_tasks", 10), ("early_merges", 5), ("machines_traced", 500), ("left_over", 100), ("text_lists", 10), ("parallel_lr", 6), ("parallel_lb", 3), ("parallel_null", 3), ("filed_halt.unk", 10), ("filed_qhalt.unk", 10)): ctx.require(k, m)
  ctx.assumptions = ["rm is replaced by a stand-in that only removes inside the scratch directory", "a task that loses one machine and duplicates another standing for as many is not told apart (the scripts compare totals)", "a child process of the local parallel scripts is not made to fail"]
  ctx.finish("machines_traced", "driver scripts run end to end on generated lists of machines, with real filters and a table-driven one, with failing tasks, leftovers of earlier runs, 1-12 pieces; non-trivial: a stage, merge or parallel run completed")
