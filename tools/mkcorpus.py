"""Offline search for long-running halting machines (used to build corpus/halting.txt)."""
import sys, random, multiprocessing, time, os, heapq
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ref
def exhaustive(ns, nk, keep):
  out = []
  def leaf(tab, r):
    if r.halted and r.steps >= 20: out.append((r.steps, ref.fmt(tab)))
  ref.enum_tnf(ns, nk, 2000, leaf)
  out.sort(reverse=True); return out[:keep]
def mutate(rng, tab):
  t = [list(x) for x in tab]; ns, nk = len(t), len(t[0])
  for _ in range(rng.choice((1, 1, 1, 2, 2, 3))):
    s, k = rng.randrange(ns), rng.randrange(nk)
    if (s, k) == (0, 0): continue
    t[s][k] = (rng.randrange(nk), rng.randrange(2), rng.randrange(ns))
  # exactly one halt: put it at a random / the least-visited cell
  if not any(x and x[2] < 0 for row in t for x in row):
    s, k = rng.randrange(ns), rng.randrange(nk); t[s][k] = (1, 1, -1)
  return t
def climb(a):
  ns, nk, seed, secs, lim = a
  rng = random.Random(seed); found = {}; pool = []
  t0 = time.time()
  while time.time() - t0 < secs:
    if pool and rng.random() < 0.85: tab = mutate(rng, rng.choice(pool)[1])
    else: tab, _ = ref.tnf_tm(rng, ns, nk, 5000)
    r = ref.run(tab, lim, 1 << 18)
    if r.halted and not r.undefined and r.steps >= 20:
      s = ref.fmt(tab)
      if s not in found:
        found[s] = r.steps; pool.append((r.steps, tab))
        if len(pool) > 300:
          pool.sort(key=lambda x: -x[0]); pool = pool[:100] + rng.sample(pool[100:], 60)
  return sorted(((v, k) for k, v in found.items()), reverse=True)[:1500]
if __name__ == "__main__":
  res = {}
  with multiprocessing.Pool(8) as p:
    a = p.apply_async(exhaustive, (4, 2, 4000)); b = p.apply_async(exhaustive, (3, 2, 4000)); c = p.apply_async(exhaustive, (2, 3, 4000))
    jobs = []
    for ns, nk in ((2, 4), (3, 3), (5, 2), (2, 5), (6, 2), (4, 3), (7, 2), (3, 4)):
      for i in range(4): jobs.append(((ns, nk), p.apply_async(climb, ((ns, nk, i * 100 + ns, 75, 3_000_000),))))
    res[(4, 2)] = a.get(); res[(3, 2)] = b.get(); res[(2, 3)] = c.get()
    for k, j in jobs: res.setdefault(k, []).extend(j.get())
  rng = random.Random(0)
  with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus", "halting.txt"), "w") as f:
    for k in sorted(res):
      l = sorted(set(res[k]), reverse=True)
      l = l[:250] + rng.sample(l[250:], min(400, max(0, len(l) - 250)))
      print(k, len(l), l[:3])
      for st, s in l: f.write(f"{s} {st}\n")
