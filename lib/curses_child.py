"""Runs /repo's Curses_Sim.py in a real terminal (a pty) on a scripted sequence of keys, and records what each refresh shows."""
import curses, json, os, runpy, sys
keys, out, code, argv = json.loads(sys.argv[1]), sys.argv[2], sys.argv[3], json.loads(sys.argv[4])
sys.dont_write_bytecode = True; sys.path.insert(0, code)
shots = []; done = {"shots": shots, "end": None, "used": 0}

class Pad:
  def __init__(self, p): self.p = p
  def __getattr__(self, n): return getattr(self.p, n)
  def refresh(self, *a): self.p.refresh(*a); self.shot(*a)
  def noutrefresh(self, *a): self.p.noutrefresh(*a); self.shot(*a)
  def shot(self, row, col, y0, x0, y1, x1):
    H, W = self.p.getmaxyx(); rows = []
    for y in range(row, min(H, row + y1 - y0 + 1)):
      l = []
      for x in range(col, min(W, col + x1 - x0 + 1)):
        c = self.p.inch(y, x); l.append([chr(c & 0xff), curses.pair_number(c & ~0xff)])
      rows.append(l)
    shots.append({"after": done["used"], "row": row, "rows": rows, "screen": [y0, x0, y1, x1]})

class Screen:
  def __init__(self, s): self.s = s
  def __getattr__(self, n): return getattr(self.s, n)
  def getkey(self):
    if done["used"] >= len(keys): return "q"
    done["used"] += 1; return keys[done["used"] - 1]
  def getch(self, *a): k = self.getkey(); return ord(k) if len(k) == 1 else getattr(curses, k)

newpad, wrapper = curses.newpad, curses.wrapper
curses.newpad = lambda *a: Pad(newpad(*a))
def wrapped(f, *a, **k):
  def g(s, *a, **k):
    done["size"] = [curses.LINES, curses.COLS]
    r = f(Screen(s), *a, **k); done["pairs"] = [list(curses.pair_content(i)) for i in range(1, 8)]; return r
  return wrapper(g, *a, **k)
curses.wrapper = wrapped
sys.argv = ["Curses_Sim.py"] + argv
try: runpy.run_path(os.path.join(code, "Curses_Sim.py"), run_name="__main__"); done["end"] = "ok"
except BaseException as e:
  import traceback
  done["end"] = repr(e); done["tb"] = traceback.format_exc()[-1500:]
json.dump(done, open(out, "w"))
