"""Builds /repo/cpp from the working tree, with its own CMakeLists, in a scratch directory.

The sanitizer flags go in through a compiler wrapper, because CMakeLists sets CMAKE_CXX_FLAGS itself.
"""
import os, resource, subprocess, concurrent.futures
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "cpp")
VARIANTS = dict(
  plain=("g++", ""),
  san=("clang++", "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -w"),
  memcheck=("g++", "-O0 -g -w"),                       # for valgrind
  noboost=("g++", "-O0 -g -w"),                        # for valgrind, without the optional library
)
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=97:detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=8000", UBSAN_OPTIONS="print_stacktrace=1:exitcode=97:halt_on_error=1")

def one(root, v):
  cxx, flags = VARIANTS[v]; d = os.path.join(root, v); os.mkdir(d)
  w = os.path.join(d, "cxx"); open(w, "w").write(f'#!/bin/sh\nexec {cxx} "$@" {flags}\n'); os.chmod(w, 0o755)
  a = ["cmake", "-S", SRC, "-B", d + "/b", "-G", "Ninja", f"-DCMAKE_CXX_COMPILER={w}"] + (["-DCMAKE_DISABLE_FIND_PACKAGE_Boost=ON"] if v == "noboost" else [])
  for c in (a, ["ninja", "-C", d + "/b"]):
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode: raise RuntimeError(f"{v}: {' '.join(c)}: {r.stdout[-2000:]} {r.stderr[-1000:]}")
  return d + "/b"

def build(root, variants):
  with concurrent.futures.ThreadPoolExecutor(len(variants)) as ex: return dict(zip(variants, ex.map(lambda v: one(root, v), variants)))

def harness(root, bdir, v, src, name):
  """Link a driver of ours against the library built from the tree; None if its interface has changed."""
  cxx, flags = VARIANTS[v]; out = os.path.join(root, f"{name}_{v}")
  r = subprocess.run([cxx, "-std=c++17", "-w", *flags.split(), "-I", SRC + "/src", "-o", out, src, bdir + "/liball_libs.a", "-lboost_iostreams"], capture_output=True, text=True)
  return out if r.returncode == 0 else None

class Bad(Exception): pass
def run(job, exe, *args, cwd, valgrind=False, timeout=300, inp=None):
  """Run a program; sanitizer reports, signals and valgrind errors are violations. -> CompletedProcess or None

  Every run has a step limit and normally takes under 2 s of CPU time (not wall time): one that uses 40 s of
  it, or 8 GB, does not stop where its step limit says."""
  san = "/san/" in exe or exe.endswith("_san")
  def limits():
    if timeout <= 300: resource.setrlimit(resource.RLIMIT_CPU, (40, 50)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not san and not valgrind: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
  cmd = [exe, *map(str, args)]; flag = os.path.join(os.path.dirname(exe.split("/b/")[0]), "runaway")
  if os.path.exists(flag): return None          # reported; every other run would take as long
  if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=98", "--track-origins=no", *cmd]
  r = subprocess.run(cmd, capture_output=True, cwd=cwd, env=ENV, timeout=timeout, input=inp, preexec_fn=limits)
  job.count("program_runs")
  if valgrind: job.count("valgrind_runs")
  err = r.stderr.decode("latin1")
  if r.returncode in (97, 98) or r.returncode < 0 or "AddressSanitizer" in err or "runtime error" in err or "==ERROR" in err:
    d = dict(cmd=[os.path.basename(exe), *map(str, args)], rc=r.returncode, err=err[-1500:])
    if r.returncode == -9: raise RuntimeError(f"{d['cmd']} was killed from outside")
    if r.returncode == -24 or "bad_alloc" in err or "rss limit" in err:
      open(flag, "w").close()
      job.violation(os.path.basename(exe) + " does not stop at its step limit (40 s of CPU time or 8 GB used)", **d); return None
    if r.returncode == -6 and "terminate called after throwing" in err: return r      # refused by an exception
    try:
      for a in args:
        if os.path.isfile(os.path.join(cwd, str(a))): d["file_" + str(a)] = open(os.path.join(cwd, str(a)), "rb").read()[:1500].decode("latin1")
    except OSError: pass
    job.violation("crash, undefined behaviour or use of uninitialised data in " + os.path.basename(exe), **d); return None
  return r
