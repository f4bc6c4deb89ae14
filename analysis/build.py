"""Compiles the driver, then dumps the current source of the crate under analysis (nothing is executed)."""
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TREES_REPO", "/repo")
FLAGS = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off"]


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=cwd)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return r


def driver():
    src = os.path.join(VERIF, "driver", "driver.rs")
    ver = subprocess.run(["rustc", "+nightly", "-V"], capture_output=True, text=True).stdout
    h = hashlib.sha256(open(src, "rb").read() + ver.encode()).hexdigest()[:16]
    out = os.path.join(VERIF, ".build", "vdrv-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def edition():
    try:
        t = open(os.path.join(REPO, "Cargo.toml")).read()
        m = re.search(r'^\s*edition\s*=\s*"(\d+)"', t, re.M)
        return m.group(1) if m else "2015"
    except OSError:
        raise BuildError("no Cargo.toml")


class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="trees-verif-")
        self.drv = driver()
        self.env = {"LD_LIBRARY_PATH": sysroot() + "/lib"}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def compile_crate(self, cfgs=(), env=None, out="libtrees.rmeta", extra=()):
        o = self.path(out)
        e = dict(self.env)
        e.update(env or {})
        cf = []
        for c in cfgs:
            cf += ["--cfg", c]
        run([self.drv, "--edition", edition(), "--crate-type", "rlib", "--crate-name", "trees", "--cap-lints", "allow"] + FLAGS + cf +
            list(extra) + [os.path.join(REPO, "src", "lib.rs"), "--emit=metadata", "-o", o], env=e, cwd=self.dir)
        return o

    def dump_probes(self, lib, src=None, out="mono.json", cfgs=()):
        o = self.path(out)
        e = dict(self.env)
        e["VDUMP"] = o
        cf = []
        for c in cfgs:
            cf += ["--cfg", c]
        run([self.drv, "--edition", "2021", "--crate-type", "rlib", "--crate-name", "probe", "--cap-lints", "allow"] + FLAGS + cf +
            ["--extern", "trees=" + lib, src or os.path.join(VERIF, "probe", "probe.rs"), "--emit=metadata", "-o",
             self.path("libprobe.rmeta")], env=e, cwd=self.dir)
        return o
