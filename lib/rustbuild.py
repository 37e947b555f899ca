"""Builds /repo/rust offline in a scratch directory, with a line driven harness appended to the validator.

enum-map is not in the offline cargo cache: /verif/lib/rust_shim has a stand-in with the part of its interface that a
crate like this uses. The build has overflow checks and debug assertions on (the crate's own dev profile).
"""
import os, re, shutil, subprocess
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "rust")
LIB = os.path.dirname(os.path.abspath(__file__))
KNOWN = {"regex": '"1.10.4"', "thiserror": '"1.0.58"', "num-traits": '"0.2.18"'}

def build(root):
  """-> (crate dir, harness program)"""
  d = os.path.join(root, "crate"); shutil.copytree(SRC, d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
  shutil.copytree(os.path.join(LIB, "rust_shim"), os.path.join(d, "verif_shim"))
  used = "".join(open(os.path.join(p, f)).read() for p, _, fs in os.walk(os.path.join(d, "src")) for f in fs if f.endswith(".rs"))
  deps = ['enum-map = { path = "verif_shim/enum-map" }'] + [f"{k} = {v}" for k, v in KNOWN.items() if k.replace("-", "_") in used]
  open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "busy_beaver"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' + "\n".join(deps) +
    "\n[workspace]\n[profile.dev]\nopt-level = 1\ndebug = 0\noverflow-checks = true\ndebug-assertions = true\n[profile.test]\nopt-level = 1\ndebug = 0\n")
  with open(os.path.join(d, "src", "validator.rs"), "a") as f: f.write(open(os.path.join(LIB, "rust_harness.rs")).read())
  os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
  open(os.path.join(d, "src", "bin", "vh.rs"), "w").write("fn main() { busy_beaver::validator::verif_harness::main() }\n")
  env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(root, "target"), CARGO_NET_OFFLINE="true")
  r = subprocess.run(["cargo", "build", "--offline", "--bin", "vh"], cwd=d, env=env, capture_output=True, text=True)
  if r.returncode: raise RuntimeError("cargo build: " + r.stderr[-3000:])
  return d, os.path.join(root, "target", "debug", "vh"), env

def crate_tests(d, env):
  """-> ({test: outcome}, output)"""
  r = subprocess.run(["cargo", "test", "--offline", "--lib"], cwd=d, env=env, capture_output=True, text=True)
  res = dict(re.findall(r"^test (\S+) \.\.\. (ok|FAILED|ignored)", r.stdout, re.M))
  return res, r.stdout + r.stderr
