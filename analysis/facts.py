"""Decisions made from what the type checker knows: auto traits, variances, signatures with their lifetimes, safety of
functions (P24, P25), the public surface of both feature configurations (P27)."""
import json
import os
import re
import subprocess

import build

ELEMS = {"SendSync": (True, True), "SendOnly": (True, False), "SyncOnly": (False, True), "Neither": (False, False)}
WALKS = ("trees::TreeWalk", "trees::ForestWalk")


def api(ws, cfgs=(), tag=""):
    lib = ws.compile_crate(cfgs=cfgs, out="libtrees%s.rmeta" % tag)
    out = ws.path("api%s.json" % tag)
    env = dict(ws.env, VAPI=out)
    build.run([ws.drv, "--edition", "2021", "--crate-type", "rlib", "--crate-name", "facts", "--cap-lints", "allow"] + build.FLAGS +
              ["--extern", "trees=" + lib, os.path.join(build.VERIF, "probe", "facts.rs"), "--emit=metadata", "-o", ws.path("libfacts%s.rmeta" % tag)],
              env=env, cwd=ws.dir)
    return lib, json.load(open(out))


def p17(ws, pid, tier):
    import tuples
    lib = ws.compile_crate(out="libtrees.rmeta")
    out = ws.path("generic.json")
    build.run([ws.drv, "--edition", "2021", "--crate-type", "rlib", "--crate-name", "facts", "--cap-lints", "allow"] + build.FLAGS +
              ["--extern", "trees=" + lib, os.path.join(build.VERIF, "probe", "facts.rs"), "--emit=metadata", "-o", ws.path("libgen.rmeta")],
              env=dict(ws.env, VGENERIC=out), cwd=ws.dir)
    viol, cov = tuples.check(json.load(open(out)))
    return {"coverage": cov, "violations": viol, "names": ["every item of every TupleTree/TupleForest implementation (polymorphic MIR)"]}


def last(p):
    return p.split("::")[-1]


class Surface:
    def __init__(self, d):
        self.d = d
        self.adts = {a["path"]: a for a in d["adts"]}
        self.yields = set()     # see find_yields
        self.fns = [f for f in d["fns"] if f["pub"] and not self.private_owner(f)]

    def private_owner(self, f):
        a = self.adts.get(f["owner"])
        return a is not None and not a["pub"]

    def kids(self, t):
        k = t["k"]
        if k in ("ref", "ptr"):
            return [t["t"]]
        if k in ("tuple",):
            return t["ts"]
        if k == "adt":
            return t["ts"]
        if k == "alias":
            return t["ts"] + t["bounds"]
        return []

    def reaches(self, path, what=("trees::Node", "trees::node_vec::NodeVec"), seen=None):
        """does a value of this type lead to nodes, through whatever pointers?"""
        seen = set() if seen is None else seen
        if path in what or last(path) in ("Node", "NodeVec"):
            return True
        if path in seen or path not in self.adts:
            return False
        seen.add(path)
        return any(self.t_reaches(f[2], what, seen) for f in self.adts[path]["fields"])

    def t_reaches(self, t, what, seen):
        if t["k"] == "adt" and self.reaches(t["path"], what, seen):
            return True
        return any(self.t_reaches(x, what, seen) for x in self.kids(t))

    def exclusive(self, path, seen=None):
        """types that stand for an exclusive borrow: a field mentions `&'a mut`, or a safe function hands out exclusive
        access for the type's lifetime that nothing but a value of this type grants (see `find_yields`)"""
        seen = set() if seen is None else seen
        if path in self.yields:
            return True
        if path in seen or path not in self.adts:
            return False
        seen.add(path)

        def ex(t):
            if t["k"] == "ref" and t["mut"]:
                return True
            if t["k"] == "adt" and t["local"] and t["rs"] and self.exclusive(t["path"], seen):
                return True
            return any(ex(x) for x in self.kids(t))
        return any(ex(f[2]) for f in self.adts[path]["fields"])

    def has_trait(self, path, trait):
        a = self.adts.get(path)
        return a is not None and all(v[trait] for v in a["auto"].values())


def fname(f):
    h = re.sub(r"ReLateParam.*", "", f["header"] or f["owner"])
    return "%s::%s" % (h, f["name"])


# ------------------------------------------------------------------------------------------------ P24
def p24(ws, pid, tier):
    lib, d = api(ws, tag="-f")
    s = Surface(d)
    viol, decided, names = [], {}, []
    for a in d["adts"]:
        if not a["pub"]:
            continue
        node = s.reaches(a["path"])
        names.append(a["path"])
        decided[a["path"]] = {e: [t for t in ("Send", "Sync") if a["auto"][e][t]] for e in ELEMS}
        for e, (snd, syn) in ELEMS.items():
            for t, may in (("Send", snd), ("Sync", syn)):
                if not a["auto"][e][t]:
                    continue
                if node and not (a["path"] in WALKS and may):
                    viol.append(("auto|%s|%s" % (t, a["path"]), "%s<T> is %s for an element type that is %s, although it leads to node state that is not synchronised" %
                                 (a["path"], t, e)))
    for i in d["impls"]:
        if last(i["trait"]) in ("Send", "Sync") and not i["neg"]:
            st = i["self"]
            p = st.get("path")
            if p not in WALKS:
                viol.append(("auto|impl|%s" % i["impl"], "explicit implementation %s on a type that is not a read-only walk" % i["impl"]))
    # the buffer that several trees share: everything in it but the slots is atomic or constant
    dump = ws.dump_probes(lib)
    import mir
    prog = mir.Program(dump)
    nv = [a for a in d["adts"] if last(a["path"]) == "NodeVec"]
    nf = 0
    for a in nv:
        for f in a["fields"]:
            txt = json.dumps(f[2])
            if any(x["k"] == "adt" and last(x["path"]) == "Vec" for x in [f[2]]):
                continue
            nf += 1
            if re.search(r'"path":"[^"]*::(Cell|RefCell|UnsafeCell|OnceCell)"', txt.replace('": "', '":"')):
                viol.append(("shared|field|%s" % f[0], "the field %s of the node buffer, which trees in different threads share, is mutated without synchronisation" % f[0]))
    if not nv:
        viol.append(("anchor|NodeVec", "no node buffer type found"))
    nw, na, decr = 0, 0, 0
    for fn in prog.fns:
        if not fn.body or fn.crate != "trees":
            continue
        fx = Effects(prog, fn)
        for what, fld in fx.plain_writes:
            nw += 1
            viol.append(("shared|write|%s|%s" % (fn.path, fld), "%s writes the field %s of the shared node buffer by a plain store" % (fn.path, fld)))
        na += len(fx.atomics)
        cas = any(n.startswith("compare_exchange") or n == "fetch_update" for n, _, _ in fx.atomics)
        for name, order, used in fx.atomics:
            decr += name == "fetch_sub" or name.startswith("compare_exchange") or name == "fetch_update"
            if name in ("store", "swap"):
                viol.append(("shared|update|%s" % fn.path, "%s replaces the shared count by an atomic %s: not a read-modify-write of its current value" % (fn.path, name)))
            if name == "load" and used and not cas:
                viol.append(("shared|load|%s" % fn.path, "%s decides by a separate load of the shared count, which another thread may have changed since" % fn.path))
            if name == "fetch_sub" and order is not None:
                fence = any(n in ("fence", "load") and o in ("Acquire", "AcqRel", "SeqCst") for n, o, _ in fx.atomics)
                if not (order in ("AcqRel", "SeqCst") or order == "Release" and fence):
                    viol.append(("shared|order|%s" % fn.path, "%s gives up a share of the buffer with ordering %s: earlier accesses of this thread are not ordered before another thread's release of the storage" % (fn.path, order)))
    if nf and not decr:
        viol.append(("anchor|decrement", "no atomic decrement of the shared count found"))
    cov = {"types_decided": len(names), "auto_traits": decided, "elements": {k: "Send" * v[0] + " Sync" * v[1] for k, v in ELEMS.items()},
           "buffer_fields": nf, "atomic_operations": na}
    import walk
    w = walk.check(ws, pid, tier)
    cov.update({"cursor_" + k if not k.startswith("cursor") else k: v for k, v in w["coverage"].items() if isinstance(v, int)})
    return {"coverage": cov, "violations": viol + w["violations"], "names": names}


class Effects:
    """atomic operations of one function and its plain stores to the node buffer"""

    def __init__(self, prog, fn):
        self.atomics = []
        self.plain_writes = []
        agg = {}
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if not pl[1] and rv[0] == "agg":
                    agg.setdefault(pl[0], []).append(rv)
                f = self.buffer_field(prog, fn, pl)
                if f:
                    self.plain_writes.append(("store", f))
        used = fn_uses(fn)
        for b in fn.blocks:
            t = b["t"]
            if t[0] != "call":
                continue
            c = callee_path(prog, t[1])
            if c is None:
                continue
            m = re.search(r"sync::atomic::(?:Atomic\w*(?:::<[^>]*>)?::)?(fetch_\w+|load|store|swap|compare_exchange\w*|fence)$", c)
            if not m:
                continue
            orders = [self.order(prog, fn, o, agg) for o in t[2]]
            orders = [o for o in orders if o]
            self.atomics.append((m.group(1), orders[0] if orders else None, t[3][0] in used))

    @staticmethod
    def buffer_field(prog, fn, pl):
        ty = prog.ty(fn.locals[pl[0]])
        for p in pl[1]:
            if p[0] == "*":
                if "to" in ty.d:
                    ty = prog.ty(ty.d["to"])
                else:
                    return None
            elif p[0] == "f":
                if ty.k == "adt" and last(ty.path) == "NodeVec":
                    f = ty.d["v"][0]["f"][p[1]]
                    return f[0]
                if ty.k == "adt" and ty.d["v"]:
                    try:
                        ty = prog.ty(ty.d["v"][0]["f"][p[1]][1])
                    except (IndexError, KeyError):
                        return None
                else:
                    return None
            else:
                return None
        return None

    def order(self, prog, fn, o, agg):
        v = None
        if o[0] in ("c", "m") and not o[1][1]:
            a = agg.get(o[1][0])
            if a and len(a) == 1:
                v = (a[0][1], a[0][2])
        elif o[0] == "k" and o[1].get("var") is not None:
            v = (o[1]["ty"], o[1]["var"])
        if v is None:
            return None
        ty = prog.ty(v[0])
        if ty.k != "adt" or last(ty.path) != "Ordering":
            return None
        return ty.d["v"][v[1]]["n"]


def fn_uses(fn):
    out = set()

    def op(o):
        if o[0] in ("c", "m"):
            out.add(o[1][0])
    for b in fn.blocks:
        for s in b["s"]:
            if s[0] == "=":
                def rec(x):
                    if isinstance(x, list):
                        if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                            out.add(x[1][0])
                        for y in x:
                            rec(y)
                rec(s[2])
                if s[2][0] in ("ref", "disc"):
                    out.add(s[2][1][0])
        t = b["t"]
        if t[0] == "switch":
            op(t[1])
        elif t[0] == "call":
            for o in t[2]:
                op(o)
        elif t[0] == "ret":
            out.add(0)
    return out


def callee_path(prog, o):
    if o[0] == "k" and o[1].get("fn"):
        ty = prog.ty(o[1]["ty"])
        if ty.k == "fndef":
            return ty.d.get("path")
    return None


# ------------------------------------------------------------------------------------------------ P25
class Access:
    """which borrows a function receives, which it hands out, and whether the latter are covered by the former"""

    def __init__(self, s, f):
        self.s, self.f = s, f
        self.inp = {}           # region -> "excl" | "shared"
        for t in f["in"]:
            self.collect(t, None, self.inp)
        self.sub = {}           # region -> regions known to outlive it
        for a, b in f["outlives"]:
            self.sub.setdefault(b, set()).add(a)

    def note(self, d, r, m):
        if d.get(r) != "excl":
            d[r] = m

    def collect(self, t, under, d):
        """under: None (owned), 'excl' (behind an exclusive reference), 'shared'"""
        s = self.s
        k = t["k"]
        if k == "ref":
            if t["mut"] and under != "shared":
                self.note(d, t["r"], "excl")
            elif t["mut"]:
                pass            # an exclusive borrow behind a shared one: not available any more
            else:
                self.note(d, t["r"], "shared")
            nxt = "shared" if not t["mut"] or under == "shared" else "excl"
            self.collect(t["t"], nxt, d)
        elif k == "adt":
            ex = self.s.exclusive(t["path"]) if t["local"] else last(t["path"]) in ("IterMut", "Drain", "PeekMut")
            for r in t["rs"]:
                if not ex:
                    self.note(d, r, "shared")
                elif under != "shared":
                    self.note(d, r, "excl")
            sub = under
            if last(t["path"]) in ("Ref",) and not t["local"]:
                sub = "shared"
            for x in t["ts"]:
                self.collect(x, sub, d)
        elif k == "alias":
            for b in t["bounds"]:
                self.collect(b, under, d)
            for r in t["rs"]:
                if r not in d:
                    self.note(d, r, "shared")
        elif k == "dyn":
            self.note(d, t["r"], "shared")
        else:
            for x in s.kids(t):
                self.collect(x, under, d)

    def covered(self, r, m):
        seen, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.inp and (m == "shared" or self.inp[x] == "excl"):
                return True
            todo += list(self.sub.get(x, ()))
        return False


def find_yields(s):
    """types with a lifetime from which safe functions obtain exclusive access for that lifetime; where they come from is
    then judged like `&'a mut` itself"""
    def holders(t, r, out):
        if t["k"] == "adt" and t["local"] and r in t["rs"]:
            out.append(t["path"])
        for x in s.kids(t):
            holders(x, r, out)
        return out
    change = True
    while change:
        change = False
        for f in s.fns:
            if f["unsafe"]:
                continue
            a, out = Access(s, f), {}
            a.collect(f["out"], None, out)
            for r, m in out.items():
                if m == "excl" and r != "'static" and not a.covered(r, m):
                    for t in f["in"]:
                        for p in holders(t, r, []):
                            if p not in s.yields and not s.has_trait(p, "Copy"):
                                s.yields.add(p)
                                change = True


def mentions(t, path, kids):
    if t["k"] == "adt" and last(t["path"]) == path:
        return True
    return any(mentions(x, path, kids) for x in kids(t))


def region(r):
    m = re.search(r"::('[\w]+)\)+$", r) or re.search(r"('\w+)", r)
    return m.group(1) if m else r


def refs_to(t, path, kids, out=None, mut=None, pinned=False):
    """-> [(mutable?, pinned?)] for every reference or guard to `path` inside the type"""
    out = [] if out is None else out
    k = t["k"]
    if k == "ref" and t["t"]["k"] == "adt" and last(t["t"]["path"]) == path:
        out.append((t["mut"], pinned))
    if k == "adt" and last(t["path"]) in ("Ref", "RefMut") and not t["local"] and any(x["k"] == "adt" and last(x["path"]) == path for x in t["ts"]):
        out.append((last(t["path"]) == "RefMut", False))
    for x in kids(t):
        refs_to(x, path, kids, out, mut, k == "adt" and last(t["path"]) == "Pin")
    return out


def exclusive_paths(s, t, out):
    """how many exclusive accesses that lead to nodes a value carries, by region"""
    k = t["k"]
    if k == "ref" and t["mut"] and s.t_reaches(t["t"], ("trees::Node",), set()):
        out[t["r"]] = out.get(t["r"], 0) + 1
        return
    if k == "adt" and t["local"] and t["rs"] and s.exclusive(t["path"]):
        for r in t["rs"]:
            out[r] = out.get(r, 0) + 1
        return
    for x in s.kids(t):
        exclusive_paths(s, x, out)


def by_value(t, path):
    k = t["k"]
    if k == "adt":
        if last(t["path"]) == path and t["local"]:
            return True
        if not t["local"] and last(t["path"]) in ("Option", "Result", "Box", "Vec", "VecDeque"):
            return any(by_value(x, path) for x in t["ts"])
        return False
    if k == "tuple":
        return any(by_value(x, path) for x in t["ts"])
    return False


SHARED_OWNERS = ("RcNode", "WeakNode", "IterRc")


def p25(ws, pid, tier):
    lib, d = api(ws, tag="-f")
    s = Surface(d)
    find_yields(s)
    viol, n, fns = [], 0, []
    for f in s.fns:
        nm = fname(f)
        a = Access(s, f)
        out = {}
        a.collect(f["out"], None, out)
        n += 1
        if out:
            fns.append(nm)
        if f["unsafe"]:
            continue
        for r, m in out.items():
            if r == "'static":
                if s.t_reaches(f["out"], ("trees::Node",), set()) or mentions(f["out"], "T", s.kids):
                    viol.append(("lifetime|%s" % nm, "%s hands out a 'static access to a node: %s" % (nm, f["text"])))
                continue
            if not a.covered(r, m):
                viol.append(("lifetime|%s|%s" % (nm, m), "%s hands out %s access for the lifetime %s, which no %s argument grants: %s" %
                             (nm, "exclusive" if m == "excl" else "shared", region(r), "exclusively borrowed" if m == "excl" else "borrowed", f["text"])))
        for mut, pinned in refs_to(f["out"], "Node", s.kids):
            if mut and not pinned:
                viol.append(("unpinned|%s" % nm, "%s hands out an unpinned exclusive reference to a node, so safe code can move a linked node: %s" % (nm, f["text"])))
        ex = {}
        exclusive_paths(s, f["out"], ex)
        for r, k in ex.items():
            if k > 1:
                viol.append(("double|%s" % nm, "%s hands out %d exclusive accesses to nodes for the same lifetime %s: %s" % (nm, k, region(r), f["text"])))
        if by_value(f["out"], "Node"):
            viol.append(("node-by-value|%s" % nm, "%s hands out a node by value, outside any allocation: %s" % (nm, f["text"])))
        if any(t["k"] == "ref" and t["t"]["k"] == "adt" and last(t["t"]["path"]) in SHARED_OWNERS or t["k"] == "adt" and last(t["path"]) in SHARED_OWNERS for t in f["in"][:1]):
            if refs_to(f["out"], "Node", s.kids):
                viol.append(("guard|%s" % nm, "%s lets safe code hold a reference to a node that other handles relink: %s" % (nm, f["text"])))
    nv = 0
    for a in d["adts"]:
        if not a["pub"]:
            continue
        p = a["path"]
        if s.exclusive(p) or last(p) in SHARED_OWNERS:
            for name, v in a["var"]:
                nv += 1
                if not name.startswith("'") and v != "o":
                    viol.append(("variance|%s|%s" % (p, name), "%s gives mutable access to %s but is not invariant in it" % (p, name)))
        if s.exclusive(p) or last(p) == "Node":
            for tr in ("Clone", "Copy"):
                nv += 1
                if s.has_trait(p, tr):
                    viol.append(("duplicable|%s|%s" % (p, tr), "%s is %s: one node's exclusive access can be duplicated" % (p, tr)))
        if last(p) == "Node":
            nv += 1
            if s.has_trait(p, "Unpin"):
                viol.append(("unpin|%s" % p, "%s is Unpin: Pin<&mut Node> gives safe code a plain &mut Node" % p))
        for fl in a["fields"]:
            if fl[1] and s.reaches(p) and (fl[2]["k"] in ("ptr",) or fl[2]["k"] == "adt" and last(fl[2]["path"]) == "NonNull"):
                viol.append(("field|%s|%s" % (p, fl[0]), "the raw pointer %s of %s is a public field" % (fl[0], p)))
    cov = {"public_functions_decided": n, "functions_handing_out_borrows": len(fns), "functions": sorted(fns)[:300], "type_facts_decided": nv}
    w = witnesses(ws, lib)
    cov.update(w[0])
    return {"coverage": cov, "violations": viol + w[1], "names": w[2] + ["signatures", "variances"]}


def witnesses(ws, lib):
    import witnesses as W
    return W.run(ws, lib)


# ------------------------------------------------------------------------------------------------ P27
NOSTD = ('feature="no_std"',)


def plain(s):
    """names of library items without the facade they were reached through; panics without their messages"""
    s = re.sub(r"\b(?:\w+::)*(?:std|core|alloc)::(?=\w)", "std::", s)
    return re.sub(r"= std::(?:rt::begin_panic|panicking::panic\w*)(?:::<[^()]*>)?\(.*\) ->", "= PANIC() ->", s)


def norm_api(d):
    fns = {}
    for f in d["fns"]:
        if f["pub"]:
            fns.setdefault("%s %s" % (plain(f["header"]), f["name"]), []).append(plain(f["text"]) + (" unsafe" if f["unsafe"] else ""))
    return {"items": {plain(i[0]) + " " + i[1] for i in d["items"]}, "fns": {k: sorted(v) for k, v in fns.items()},
            "impls": {("!" if i["neg"] else "") + plain(i["impl"]) for i in d["impls"]},
            "traits of types": {"%s: %s" % (a["path"], json.dumps(a["auto"], sort_keys=True)) for a in d["adts"] if a["pub"]}}


def mir_text(cfgs):
    cf = []
    for c in cfgs:
        cf += ["--cfg", c]
    r = build.run(["rustc", "+nightly", "--edition", build.edition(), "--crate-type", "rlib", "--crate-name", "trees", "--cap-lints", "allow",
                   "-Zunpretty=mir", "-Ztrim-diagnostic-paths=no"] + [f for f in build.FLAGS if "always-encode" not in f] + cf +
                  [os.path.join(build.REPO, "src", "lib.rs")])
    out, name, cur = {}, None, []
    for l in r.stdout.split("\n"):
        if l.startswith("//"):
            continue
        if l[:1] not in (" ", "}", "") and l.rstrip().endswith("{"):
            name, cur = plain(re.split(r"\s*->|\s*=\s*{|\(_1", l)[0]), []
        cur.append(plain(l.strip()))
        if l.startswith("}"):
            out.setdefault(name, []).append("\n".join(cur))
    # constants are named by number: by content instead
    con = {}
    for k in list(out):
        m = re.match(r"alloc(\d+) ", k)
        if m:
            con[m.group(1)] = re.sub(r"\s+", " ", re.sub(r"^alloc\d+", "", out.pop(k)[0]))
    for k, v in out.items():
        out[k] = sorted(re.sub(r"\balloc(\d+)\b", lambda m: con.get(m.group(1), "alloc"), x) for x in v)
    return out


def p27(ws, pid, tier):
    viol = []
    deps = ws.path("deps.txt")
    try:
        ws.compile_crate(cfgs=NOSTD, env={"VDEPS": deps}, out="libtrees-n.rmeta")
    except build.BuildError as e:
        return {"coverage": {}, "violations": [("build", "the no_std configuration does not build: %s" % str(e)[-1500:])], "names": []}
    crates = open(deps).read().split()
    for c in crates:
        if c in ("std", "test", "proc_macro"):
            viol.append(("links|%s" % c, "the no_std configuration links %s" % c))
    _, d0 = api(ws, tag="-d")
    _, d1 = api(ws, cfgs=NOSTD, tag="-m")
    a0, a1 = norm_api(d0), norm_api(d1)
    n = 0
    for k in a0:
        x, y = a0[k], a1[k]
        n += len(x)
        if isinstance(x, dict):
            for i in sorted(set(x) | set(y)):
                if x.get(i) != y.get(i):
                    viol.append(("surface|%s|%s" % (k, i), "public function %s differs: default %s, no_std %s" % (i, x.get(i), y.get(i))))
        else:
            for i in sorted(x ^ y):
                viol.append(("surface|%s|%s" % (k, i), "%s: %s exists only in the %s configuration" % (k, i, "default" if i in x else "no_std")))
    m0, m1 = mir_text(()), mir_text(NOSTD)
    diff = [k for k in sorted(set(m0) | set(m1)) if m0.get(k) != m1.get(k)]
    cov = {"public_facts_compared": n, "function_bodies_compared": len(set(m0) | set(m1)), "bodies_that_differ": len(diff), "crates_linked_no_std": crates}
    names = ["links", "surface", "bodies"]
    if diff:
        # bodies that are written differently: decide their behaviour with the other properties' analyses
        import check
        v, seen = check.shapes(ws, cfgs=NOSTD)
        viol += [("no_std|" + k, "in the no_std configuration: " + x) for k, x in v]
        for k in diff:
            short = re.sub(r"<impl at [^>]*>::", "", k.split(" ", 1)[-1]).split("::")
            nm = [x for x in short if not x.startswith("{")][-1]
            if not any(f.split("::")[-1].split("<")[0] == nm or ("::" + nm) in f for f in seen):
                viol.append(("body|%s" % re.sub(r":\d+:\d+: \d+:\d+", "", k), "%s differs between the configurations and no analysis covers it" % k))
        cov["bodies_decided_by_analysis"] = diff[:50]
    return {"coverage": cov, "violations": viol, "names": names}
