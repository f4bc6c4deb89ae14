#!/usr/bin/env python3
"""dev helper: plant a bug.  seed.py SPEC.py  with SPEC = dict(id, property, edits=[(file, old, new, nth)], needs, breaks, demo)"""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = "/verif/seeded/" + spec["id"]
d = tempfile.mkdtemp(prefix="seed")
w = d + "/repo"
shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("target"))
os.makedirs(out, exist_ok=True)
open(out + "/demo.rs", "w").write(spec["demo"])
flags = spec.get("flags", "")
run = spec.get("run", '"$T/demo"')
open(out + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository. Builds the crate and the demonstration in a scratch directory and runs it.
H=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 --crate-type rlib --crate-name trees -Awarnings %s src/lib.rs -o "$T/libtrees.rlib" || exit 1
rustc --edition 2018 -Awarnings %s --extern trees="$T/libtrees.rlib" "$H/demo.rs" -o "$T/demo" || exit 1
ulimit -c 0
timeout 60 %s
''' % (flags, flags, run))
if "sh" in spec:
    open(out + "/demo.sh", "w").write(spec["sh"])
os.chmod(out + "/demo.sh", 0o755)
def demo(): return subprocess.run(["bash", out + "/demo.sh"], cwd=w, capture_output=True, text=True)
r0 = demo()
for e in spec["edits"]:
    f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
    p = w + "/" + f; s = open(p).read(); parts = s.split(old)
    assert len(parts) > nth + 1, ("not found", old)
    open(p, "w").write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
open(out + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
r1 = demo()
t = subprocess.run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test result|FAILED|failed|error' | head", shell=True, cwd=w, capture_output=True, text=True)
c = subprocess.run(["python3", "/verif/analysis/check.py", spec["property"]], capture_output=True, text=True, env=dict(os.environ, TREES_REPO=w))
print(spec["id"], "clean demo", r0.returncode, r0.stderr[-300:] if r0.returncode else "", "| patched demo", r1.returncode, r1.stderr[-200:].replace("\n", " "))
print("  tests:", " ".join(t.stdout.split("\n"))[:400])
print("  check:", c.returncode, c.stdout[:700])
for extra in sys.argv[2:]:
    c = subprocess.run(["python3", "/verif/analysis/check.py", extra], capture_output=True, text=True, env=dict(os.environ, TREES_REPO=w))
    print("  check", extra, c.returncode, c.stdout[:300])
shutil.rmtree(d)
