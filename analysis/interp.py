"""Abstract interpreter over the dumped MIR."""
import sys
import re
import time
from core import *
import heap as H
from heap import NP

sys.setrecursionlimit(20000)

TRANSPARENT = {
    "std::cell::UnsafeCell", "std::mem::ManuallyDrop", "std::mem::MaybeUninit", "std::ptr::NonNull",
    "std::ptr::Unique", "std::cell::Cell", "std::sync::atomic::Atomic", "std::mem::MaybeDangling",
    "core::ptr::unique::Unique", "std::cell::SyncUnsafeCell", "std::cmp::Reverse", "std::num::Wrapping",
}

OPAQUE_STD = ("std::vec::Vec", "std::collections::VecDeque", "std::rc::Rc", "std::rc::Weak", "std::cell::RefCell",
              "std::cell::Ref", "std::cell::RefMut", "std::boxed::Box", "std::fmt::Formatter")


def is_transparent(ty):
    return ty.k == "adt" and (ty.path in TRANSPARENT or ty.path.endswith("ptr::unique::Unique")
                              or ty.path.endswith("::MaybeDangling") or ty.path.endswith("ptr::Unique"))


class Outcome:
    def __init__(self, kind, st, val=None, why=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.why = why


DEADLINE = 0     # wall-clock limit of the whole check (0: none)


def promoted_int(v):
    """an integer constant read through a reference"""
    return const(int.from_bytes(bytes.fromhex(v[1]), "little")) if "?" not in v[1] and len(v[1]) <= 16 else v


class Interp:
    def __init__(self, prog, models, opts=None):
        self.prog = prog
        self.models = models
        self.opts = opts or {}
        self.max_steps = self.opts.get("max_steps", 400000)
        self.max_paths = self.opts.get("max_paths", 6000)
        self.steps = 0
        self.paths = 0
        self.fns_seen = set()
        self.calls_seen = set()
        self.prove = None
        self.outcomes = []
        self.violations = []
        self.loops = None
        self.summaries = []   # (predicate(fn, interp, st), handler)
        self.unwind = self.opts.get("unwind", False)
        self._mcache = {}

    # ------------------------------------------------------------ memory
    def load_root(self, st, root):
        k = root[0]
        if k == "L":
            v = st.mem.get(root, UNINIT)
            return v
        if k in ("o", "c"):
            if root not in st.mem:
                raise Violation("memory", "access to released memory %s" % (root,))
            return st.mem[root]
        raise AssertionError(root)

    def resolve(self, st, p):
        """pointer with normalised root; summaries are expanded"""
        r = st.root(p.r)
        while r[0] in ("f", "l", "a"):
            if r[0] == "a":
                if ("a", r[1]) not in st.mem:
                    raise Violation("memory", "access through a pointer to a released node")
                self.commit(st, ("a", r[1]), lambda s, a=r[1]: H.expand_chain(s, a))
                r = H.expand_chain(st, r[1])
            else:
                if ("s", r[1]) not in st.mem:
                    raise Violation("memory", "access through a pointer to a released node")
                self.commit(st, ("s", r[1]), lambda s, e=r: H.expand_end(s, e))
                r = H.expand_end(st, r)
            r = st.root(r)
        if r is not p.r:
            return P(r, p.p, p.m)
        return p

    def commit(self, st, key, f):
        """refinements of the state at the start of the block are made there, so that they survive case splits"""
        if st.j is None or any(k == key for k, v in st.j):
            return
        raise Fork([f], "")

    def load(self, st, p):
        if not isinstance(p, P):
            raise Inconclusive("load through %r" % (p,))
        p = self.resolve(st, p)
        k = p.r[0]
        if k == "n":
            return self.load_node(st, p)
        if k == "v":
            r = st.mem.get(p.r)
            if r is None or r["st"] != "live":
                raise Violation("memory", "access to a released node buffer")
            return self.nav(st, r["val"], p.p, p)
        if k in ("vec", "deq"):
            return self.models.load_vec(self, st, p)
        if k == "gone":
            raise Violation("memory", "access to a released node")
        if k == "null" or k == "dangling":
            raise Violation("memory", "access through a dangling pointer")
        if k == "str":
            return ("bytes", p.r[1])
        v = self.load_root(st, p.r)
        return self.nav(st, v, p.p, p)

    def nav(self, st, v, path, p):
        for s in path:
            if isinstance(v, A):
                if isinstance(s, int):
                    if s >= len(v.f):
                        raise Inconclusive("field %s of %r" % (s, v))
                    v = v.f[s]
                elif s[0] == "d":
                    if v.v != s[1]:
                        raise Violation("memory", "read of variant %d of a value that holds variant %d" % (s[1], v.v))
                elif s[0] == "i":
                    i = st.norm(s[1])
                    if not i.is_const():
                        raise Inconclusive("symbolic index into an array")
                    if i.c >= len(v.f):
                        raise Violation("bounds", "index %d out of %d" % (i.c, len(v.f)))
                    v = v.f[i.c]
                else:
                    raise Inconclusive("path step %r" % (s,))
            elif v is UNINIT:
                raise Inconclusive("read of uninitialised memory %r" % (p,))
            else:
                r = self.models.nav(self, st, v, s, p)
                if r is None:
                    raise Inconclusive("projection %r of %r" % (s, v))
                v = r
        return v

    def node_live(self, st, nid, p):
        r = st.mem.get(("n", nid))
        if r is None or r["st"] == "freed":
            raise Violation("memory", "access to the released node %s" % (H.nm(st, nid) if r else nid))
        k = r["kind"]
        if k and k[0] == "pl":
            pr = st.mem.get(("v", k[1]))
            if pr is None or pr["st"] != "live":
                raise Violation("memory", "access to node %s inside of a released buffer" % H.nm(st, nid))
        return r

    def load_node(self, st, p):
        nid = p.r[1]
        r = self.node_live(st, nid, p)
        if not p.p:
            raise Inconclusive("whole slot read of a node cell")
        s = p.p[0]
        if s == "COUNT":
            if isinstance(r["rc"], Lazy):
                self.force_rc(st, nid)
                r = H.rec(st, nid)
            return r["rc"]
        if s == "CELL":
            raise Inconclusive("raw read of a RefCell")
        v = r["val"]
        path = p.p[1:]
        if path:
            fi = path[0]
            fv = v.f[fi]
            if isinstance(fv, Lazy):
                self.force(st, nid, fv)
                v = H.rec(st, nid)["val"]
            return self.nav(st, v, path, p)
        for fv in v.f:
            if isinstance(fv, Lazy):
                self.force(st, nid, fv)
        return H.rec(st, nid)["val"]

    def force(self, st, nid, lz):
        k = lz.k
        if k == "kids":
            H.force_kids(st, nid)
        elif k == "up":
            H.force_up(st, nid)
        elif k == "sib":
            H.force_sib(st, nid)
        elif k == "data":
            H.force_data(st, nid)
        elif is_tag(k, "bfs"):
            import rebuild
            rebuild.force(self, st, nid, k[1])
        else:
            raise Inconclusive("lazy %r" % (k,))

    def force_rc(self, st, nid):
        up = H.getf(st, nid, "up")
        if isinstance(up, Lazy):
            H.force_up(st, nid)
        r = H.rec(st, nid)
        if isinstance(r["rc"], Lazy):
            H.first_rc(st, nid, H.root_rc(st, nid))

    def upd_nav(self, st, v, path, new, p):
        if not path:
            return new
        s = path[0]
        if isinstance(v, A):
            if isinstance(s, int):
                if s >= len(v.f):
                    raise Inconclusive("store to field %s of %r" % (s, v))
                fs = list(v.f)
                fs[s] = self.upd_nav(st, fs[s], path[1:], new, p)
                return A(v.v, tuple(fs))
            if s[0] == "d":
                if v.v != s[1]:
                    raise Violation("memory", "store to variant %d of a value that holds variant %d" % (s[1], v.v))
                return self.upd_nav(st, v, path[1:], new, p)
            if s[0] == "i":
                i = st.norm(s[1])
                if not i.is_const():
                    raise Inconclusive("store at a symbolic index of an array")
                if i.c >= len(v.f):
                    raise Violation("bounds", "index %d out of %d" % (i.c, len(v.f)))
                fs = list(v.f)
                fs[i.c] = self.upd_nav(st, fs[i.c], path[1:], new, p)
                return A(v.v, tuple(fs))
        r = self.models.upd_nav(self, st, v, path, new, p)
        if r is None:
            raise Inconclusive("store to %r of %r" % (s, v))
        return r

    def shared_write(self, st, root, what):
        """readers of shared walks run on several threads at once: nothing that existed before may be written"""
        if self.opts.get("frozen"):
            r = st.mem.get(root)
            if r is None or (root[0] == "n" and r["src"] and r["src"][0][:1] == ("new",)):
                return
            raise Violation("shared-write", "a shared reader writes %s of an existing %s" % (what, "node" if root[0] == "n" else "buffer"))

    def store(self, st, p, new, ty=None):
        if not isinstance(p, P):
            raise Inconclusive("store through %r" % (p,))
        p = self.resolve(st, p)
        k = p.r[0]
        if k in ("n", "v"):
            self.shared_write(st, p.r, "a field" if p.p and p.p[0] != "COUNT" else "the reference count")
        if k == "n":
            nid = p.r[1]
            r = self.node_live(st, nid, p)
            s = p.p[0] if p.p else None
            if s == "COUNT":
                if isinstance(r["rc"], Lazy):
                    self.force_rc(st, nid)
                H.upd(st, nid, rc=new)
                return
            if s != "NODE":
                raise Inconclusive("raw store to a node cell")
            v = r["val"]
            path = p.p[1:]
            for i, fv in enumerate(v.f):
                if isinstance(fv, Lazy) and (not path or path[0] == i):
                    if fv.k == "kids" or fv.k == "up" or fv.k == "sib" or len(path) != 1 or path[0] == H.L.F["data"]:
                        self.force(st, nid, fv)
            r = H.rec(st, nid)
            nv = self.upd_nav(st, r["val"], path, new, p)
            kw = {"val": nv}
            if not path or path[0] == H.L.F["data"]:
                self.models.node_data_written(self, st, nid, r, nv, kw)
            H.upd(st, nid, **kw)
            return
        if k == "v":
            r = st.mem.get(p.r)
            if r is None or r["st"] != "live":
                raise Violation("memory", "access to a released node buffer")
            d = dict(r)
            d["val"] = self.upd_nav(st, r["val"], p.p, new, p)
            st.put(p.r, d)
            return
        if k in ("vec", "deq"):
            return self.models.store_vec(self, st, p, new)
        if k in ("null", "dangling"):
            raise Violation("memory", "store through a dangling pointer")
        if k == "L":
            v = st.mem.get(p.r, UNINIT)
            if p.p and v is UNINIT:
                v = self.blank(st, p)
            st.put(p.r, self.upd_nav(st, v, p.p, new, p))
            return
        if k == "o":
            if p.r not in st.mem:
                raise Violation("memory", "store to released memory")
            st.put(p.r, self.upd_nav(st, st.mem[p.r], p.p, new, p))
            return
        raise Inconclusive("store to %r" % (p,))

    def blank(self, st, p):
        """uninitialised struct/tuple/variant under construction field by field"""
        fid, l = p.r[1], p.r[2]
        f = st.frame
        while f is not None and f.fid != fid:
            f = f.parent
        if f is None:
            raise Violation("memory", "access to a dead local")
        ty = self.prog.ty(f.fn.locals[l])
        if ty.k in ("tuple", "closure"):
            return A(0, (UNINIT,) * len(ty.d["f"]))
        if ty.k == "adt":
            var = 0
            for s in p.p:
                if is_tag(s, "d"):
                    var = s[1]
                break
            return A(var, (UNINIT,) * len(ty.d["v"][var]["f"]))
        raise Inconclusive("partial initialisation of %s" % ty.name)

    # ------------------------------------------------------------ places
    def place_ptr(self, st, pl):
        """-> (pointer, type)"""
        f = st.frame
        l, proj = pl
        ty = self.prog.ty(f.fn.locals[l])
        cur = P(("L", f.fid, l))
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.load(st, cur)
                v = self.models.as_ptr(self, st, v)
                if not isinstance(v, P):
                    raise Inconclusive("dereference of %r" % (v,))
                cur = v
                if ty.k in ("ref", "ptr"):
                    ty = self.prog.ty(ty.d["to"])
                elif ty.k == "adt" and ty.path.endswith("::Box"):
                    ty = self.prog.ty(ty.d["args"][0])
                else:
                    raise Inconclusive("dereference of type %s" % ty.name)
            elif k == "f":
                nt = self.prog.ty(e[2])
                cur = self.field(st, cur, ty, e[1])
                ty = nt
            elif k == "d":
                cur = P(cur.r, cur.p + (("d", e[1]),), cur.m)
            elif k == "i":
                i = st.mem.get(("L", f.fid, e[1]), UNINIT)
                i = st.norm(i)
                cur = self.index(st, cur, i, ty)
                ty = self.prog.ty(ty.d["of"])
            elif k == "c":
                off, mn, fe = e[1], e[2], e[3]
                n = self.len_of(st, cur, ty)
                i = n - off if fe else const(off)
                cur = self.index(st, cur, st.norm(i), ty)
                ty = self.prog.ty(ty.d["of"])
            else:
                raise Inconclusive("place projection %r" % (e,))
        return cur, ty

    def len_of(self, st, cur, ty):
        if ty.k == "array":
            return const(ty.d["len"])
        if cur.m is not None:
            return cur.m
        raise Inconclusive("length of %s" % ty.name)

    def index(self, st, cur, i, ty):
        r = st.root(cur.r)
        if r[0] in ("vec", "deq"):
            base = 0
            return P(r, cur.p + (("i", i),))
        if r[0] == "pb":
            return self.models.pile_slot(self, st, r[1], i)
        return P(cur.r, cur.p + (("i", i),))

    def field(self, st, cur, ty, i):
        if is_transparent(ty):
            if ty.path.endswith("Unique") or ty.path.endswith("NonNull"):
                return cur if i == 0 else P(cur.r, cur.p + ("ZST",))
            if i == 0 or ty.d.get("kind") == "union":
                return cur
            return P(cur.r, cur.p + ("ZST",))
        r = st.root(cur.r)
        if r[0] in ("n", "f", "l", "a") and not cur.p:
            if H.L.shared is not None and ty.id == H.L.shared.id:
                return P(r, ("CELL",) if i == H.L.HF["data"] else ("COUNT",))
            raise Inconclusive("field %d of %s at a node slot" % (i, ty.name))
        return P(cur.r, cur.p + (i,), None)

    # ------------------------------------------------------------ operands / rvalues
    def konst(self, st, c):
        ty = self.prog.ty(c["ty"])
        if "fn" in c:
            return ("fn", ty.id)
        if "v" in c:
            return self.konst(st, c["v"])
        if "zst" in c:
            if ty.k in ("tuple", "closure"):
                return A(0, tuple(UNIT for _ in ty.d["f"]))
            if ty.k == "fndef":
                return ("fn", ty.id)
            if ty.k == "adt":
                return A(0, tuple(UNIT for _ in (ty.d["v"][0]["f"] if ty.d["v"] else [])))
            return UNIT
        if "int" in c:
            v = int(c["int"])
            if ty.k == "ptr":
                return P(("dangling", v))
            if v > 0x5EED_0000_0000 and "tup" in st.ghost:
                import tupbuild
                x = tupbuild.const_of(st, v)
                if x is not None:
                    return st.norm(x)
            return const(v)
        if "agg" in c:
            fs = tuple(self.konst(st, x) for x in c["agg"])
            var = c.get("var") or 0
            if is_transparent(ty) and ty.k == "adt":
                return fs[0]
            return A(var, fs)
        if "slice" in c:
            return P(("str", c.get("bytes", "?")), (), const(c["slice"]))
        if "ptr" in c:
            if "to" in c:
                v = self.konst(st, c["to"])
                key = ("c", repr(v))
                if key not in st.mem:
                    st.put(key, v)
                return P(key)
            if "bytes" in c:
                return P(("str", c["bytes"]), (), const(len(c["bytes"]) // 2))
            return P(("static", c.get("static", "?")))
        if "name" in c:
            r = self.models.named_const(self, st, c, ty)
            if r is not None:
                return r
            raise Inconclusive("constant %s" % c["name"])
        raise Inconclusive("constant of type %s" % ty.name)

    def operand(self, st, o):
        k = o[0]
        if k == "k":
            return self.konst(st, o[1])
        if k == "rc":
            return ZERO
        pl = o[1]
        if not pl[1]:
            key = ("L", st.frame.fid, pl[0])
            v = st.mem.get(key, UNINIT)
            if v is UNINIT:
                ty = self.prog.ty(st.frame.fn.locals[pl[0]])
                if ty.d.get("size") == 0:
                    return self.zst(ty)
                raise Inconclusive("use of an uninitialised local")
            if k == "m":
                ty = self.prog.ty(st.frame.fn.locals[pl[0]])
                if ty.d["nd"]:
                    st.put(key, UNINIT)
            return v
        p, ty = self.place_ptr(st, pl)
        if p.p and p.p[-1] == "ZST":
            return UNIT
        v = self.load(st, p)
        if v is UNINIT:
            if ty.d.get("size") == 0:
                return self.zst(ty)
            raise Inconclusive("use of uninitialised memory")
        if k == "m" and ty.d["nd"] and st.root(p.r)[0] == "L":
            # leave a hole (drop elaboration keeps its own flags)
            self.store(st, p, ("moved", v) if False else v)
        return v

    def zst(self, ty):
        if ty.k in ("tuple", "closure"):
            return A(0, tuple(self.zst(self.prog.ty(x)) for x in ty.d["f"]))
        if ty.k == "adt" and ty.d["v"]:
            return A(0, tuple(self.zst(self.prog.ty(x[1])) for x in ty.d["v"][0]["f"]))
        if ty.k == "fndef":
            return ("fn", ty.id)
        return UNIT

    def cond(self, st, kind, l):
        l = st.norm(l)
        if kind == "ge0":
            if st.prove_ge0(l):
                return ONE
            if st.prove_ge0(-l - 1):
                return ZERO
        elif kind == "eq0":
            if not l.t:
                return ONE if l.c == 0 else ZERO
            if st.prove_ge0(l - 1) or st.prove_ge0(-l - 1):
                return ZERO
        return ("cond", kind, l, True)

    def neg(self, st, c):
        if isinstance(c, Lin):
            return ONE - c
        if is_tag(c, "cond"):
            return ("cond", c[1], c[2], not c[3])
        raise Inconclusive("negation of %r" % (c,))

    def truth(self, st, c):
        if isinstance(c, Lin):
            c = st.norm(c)
            if c.is_const():
                return c.c != 0
            return not st.decide("eq0", c)
        if is_tag(c, "cond"):
            r = st.decide(c[1], c[2])
            return r if c[3] else not r
        raise Inconclusive("truth of %r" % (c,))

    def binop(self, st, op, a, b, ty):
        if isinstance(a, Lin) and is_tag(b, "bytes"):
            b = promoted_int(b)
        elif isinstance(b, Lin) and is_tag(a, "bytes"):
            a = promoted_int(a)
        if op.startswith("Add") or op.startswith("Sub") or op.startswith("Mul"):
            if isinstance(a, Lin) and isinstance(b, Lin):
                a, b = st.norm(a), st.norm(b)
                if op.startswith("Add"):
                    r = a + b
                elif op.startswith("Sub"):
                    r = a - b
                else:
                    if a.is_const():
                        r = b.scale(a.c)
                    elif b.is_const():
                        r = a.scale(b.c)
                    else:
                        raise Inconclusive("product of two unknowns")
                r = st.norm(r)
                if r.is_const() and r.c < 0 and ty.k == "uint":
                    if op.endswith("WithOverflow"):
                        return A(0, (const(r.c % (1 << ty.d["bits"])), ONE))
                    if "Unchecked" not in op:
                        raise Violation("arithmetic", "subtraction below zero (%r - %r)" % (a, b))
                if op.endswith("WithOverflow"):
                    if ty.k == "uint" and op.startswith("Sub"):
                        return A(0, (r, self.neg(st, self.cond(st, "ge0", r))))
                    return A(0, (r, ZERO))
                return r
            raise Inconclusive("arithmetic on %r, %r" % (a, b))
        if op in ("Div", "Rem"):
            a, b = st.norm(a), st.norm(b)
            if b.is_const() and b.c > 0:
                q, rest = {}, a.c % b.c
                if all(k % b.c == 0 for _, k in a.t):
                    if op == "Rem":
                        return const(rest)
                    return Lin(a.c // b.c, tuple((x, k // b.c) for x, k in a.t))
            raise Inconclusive("division %r / %r" % (a, b))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, tuple) and a and a[0] == "cond":
                a = ONE if self.truth(st, a) else ZERO
            if isinstance(b, tuple) and b and b[0] == "cond":
                b = ONE if self.truth(st, b) else ZERO
            if isinstance(a, Lin) and isinstance(b, Lin):
                if op == "Eq":
                    return self.cond(st, "eq0", a - b)
                if op == "Ne":
                    return self.neg(st, self.cond(st, "eq0", a - b))
                if op == "Lt":
                    return self.cond(st, "ge0", b - a - 1)
                if op == "Le":
                    return self.cond(st, "ge0", b - a)
                if op == "Gt":
                    return self.cond(st, "ge0", a - b - 1)
                return self.cond(st, "ge0", a - b)
            if isinstance(a, P) and isinstance(b, P):
                if op in ("Eq", "Ne"):
                    e = self.ptr_eq(st, a, b)
                    return ONE if e == (op == "Eq") else ZERO
                raise Inconclusive("ordering of pointers")
            if op in ("Eq", "Ne") and a == b:
                return ONE if op == "Eq" else ZERO
            raise Inconclusive("comparison of %r and %r" % (a, b))
        if op in ("BitAnd", "BitOr", "BitXor"):
            if ty.k == "bool":
                if op == "BitAnd":
                    return ONE if self.truth(st, a) and self.truth(st, b) else ZERO
                if op == "BitOr":
                    return ONE if self.truth(st, a) or self.truth(st, b) else ZERO
                return ONE if self.truth(st, a) != self.truth(st, b) else ZERO
            if isinstance(a, Lin) and isinstance(b, Lin) and a.is_const() and b.is_const():
                return const({"BitAnd": a.c & b.c, "BitOr": a.c | b.c, "BitXor": a.c ^ b.c}[op])
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and a.is_const() and b.is_const():
            return const(a.c << b.c if op.startswith("Shl") else a.c >> b.c)
        if op == "Cmp" and isinstance(a, Lin) and isinstance(b, Lin):
            if st.decide("eq0", a - b):
                return A(1, ())
            return A(2, ()) if st.decide("ge0", a - b - 1) else A(0, ())
        if op == "Offset":
            return self.models.ptr_offset(self, st, a, b)
        raise Inconclusive("operation %s on %r, %r" % (op, a, b))

    def ptr_eq(self, st, a, b):
        a, b = st.nptr(a), st.nptr(b)
        if a.r == b.r:
            if a.p == b.p:
                return True
            if a.r[0] in ("n", "f", "l") and (a.p == () or b.p == ()):
                raise Inconclusive("comparison of a node with its container")
            return norm_path(st, a.p) == norm_path(st, b.p)
        ka, kb = a.r[0], b.r[0]
        if {ka, kb} == {"f", "l"} and a.r[1] == b.r[1]:
            sg = st.mem.get(("s", a.r[1]))
            if sg is None:
                raise Violation("memory", "comparison of released nodes")
            return st.decide("eq0", st.norm(sg["hi"] - sg["lo"] - 1))
        if ka in ("f", "l") and kb in ("f", "l") and a.r[1] == b.r[1]:
            return a.r == b.r
        return False

    def discriminant(self, st, p, ty):
        v = self.load(st, p)
        if ty.k == "adt":
            if isinstance(v, A):
                return const(int(ty.d["v"][v.v]["d"])) if ty.d["v"] else ZERO
            if v is UNINIT:
                # stores of values without contents are optimised away: the only variant that can exist
                vs = [x for x in ty.d["v"] if not any(self.prog.ty(f[1]).k == "never" for f in x["f"])]
                if len(vs) == 1 and not vs[0]["f"]:
                    return const(int(vs[0]["d"]))
            v2 = self.models.discr(self, st, v, ty)
            if v2 is not None:
                return v2
        raise Inconclusive("discriminant of %r : %s" % (v, ty.name))

    def rvalue(self, st, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "ref":
            p, ty = self.place_ptr(st, rv[1])
            return st.nptr(p)
        if k == "bin":
            a = self.operand(st, rv[2])
            b = self.operand(st, rv[3])
            return self.binop(st, rv[1], a, b, self.prog.ty(rv[4]))
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "Not":
                if dty.k == "bool":
                    return self.neg(st, a)
                if isinstance(a, Lin) and a.is_const():
                    return const((1 << dty.d["bits"]) - 1 - a.c)
            if rv[1] == "Neg" and isinstance(a, Lin):
                return -a
            if rv[1] == "PtrMetadata" and isinstance(a, P):
                if a.m is None:
                    return UNIT
                return a.m
            raise Inconclusive("unary %s of %r" % (rv[1], a))
        if k == "disc":
            p, ty = self.place_ptr(st, rv[1])
            return self.discriminant(st, p, self.prog.ty(rv[2]))
        if k == "agg":
            ty = self.prog.ty(rv[1])
            fs = tuple(self.operand(st, o) for o in rv[3])
            if ty.k == "adt" and is_transparent(ty):
                if ty.d.get("kind") == "union":
                    return fs[0]
                return fs[0] if fs else UNIT
            if ty.k == "adt" and ty.d.get("kind") == "union":
                return fs[0]
            if ty.k == "array":
                return A(0, fs)
            return A(rv[2], fs)
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, rv[2]), self.prog.ty(rv[3]), self.prog.ty(rv[4]))
        if k == "aggptr":
            fs = [self.operand(st, o) for o in rv[2]]
            p = self.models.as_ptr(self, st, fs[0])
            m = fs[1]
            return P(p.r, p.p, None if m == UNIT else m)
        if k == "rep":
            v = self.operand(st, rv[1])
            n = "".join(ch for ch in rv[2] if ch.isdigit())
            return A(0, (v,) * int(n))
        raise Inconclusive("rvalue %s" % k)

    def cast(self, st, kind, v, ty, fty):
        if kind.startswith("PointerExposeProvenance") or (kind == "Transmute" and ty.k == "uint" and isinstance(v, P)):
            return self.models.address(self, st, v)
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion(MutToConst"):
            return self.models.ptr_cast(self, st, v, ty, fty)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                src = self.prog.ty(fty.d["to"]) if fty.k in ("ref", "ptr") else None
                if src is not None and src.k == "array":
                    return P(v.r, v.p, const(src.d["len"]))
                return v
            if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
                return v
            return v
        if kind.startswith("IntToInt"):
            if isinstance(v, Lin):
                if ty.k in ("uint", "int") and v.is_const():
                    return const(v.c % (1 << ty.d["bits"])) if v.c < 0 or ty.d["bits"] < 64 else v
                return v
            if is_tag(v, "cond"):
                return ONE if self.truth(st, v) else ZERO
            if isinstance(v, A):
                return const(int(fty.d["v"][v.v]["d"]))
        if kind.startswith("BoxDerefTransmute") and isinstance(v, P) and v.r[0] == "o":
            return v
        if kind.startswith("Transmute") or kind.startswith("Subtype") or kind.startswith("PointerWithExposed"):
            return self.models.transmute(self, st, v, ty, fty)
        raise Inconclusive("cast %s of %r" % (kind, v))

    # ------------------------------------------------------------ running
    def call_fn(self, st, fn, args, dest, ret, unw, note=None):
        """push a frame"""
        self.fns_seen.add(fn.id)
        if st.frame is not None and st.frame.depth > 90:
            raise Inconclusive("call depth exceeded at %s" % fn.full)
        fid = (st.frame.fid if st.frame is not None else 0) + 1
        callbb = st.frame.bb if st.frame is not None else 0
        f = Frame(fid, fn, 0, dest, ret, st.frame, unw, note, callbb)
        st.frame = f
        for i, a in enumerate(args):
            st.put(("L", fid, i + 1), a)

    def drop_locals(self, st, fid):
        for k in [k for k in st.mem if k[0] == "L" and k[1] == fid]:
            st.rm(k)

    def where(self, st):
        f = st.frame
        if f is None:
            return "?"
        out = []
        while f is not None:
            if f.fn.crate == "trees":
                b = f.fn.blocks[f.bb] if f.bb < len(f.fn.blocks) else None
                out.append(f.fn.full.split("::<")[0] if False else short(f.fn.full))
            f = f.parent
        return " <- ".join(out[:4]) or short(st.frame.fn.full)

    def run(self, st0):
        work = [st0]
        while work:
            st = work.pop()
            try:
                self.run_path(st, work)
            except Infeasible:
                continue
            if self.paths > self.max_paths:
                raise Inconclusive("more than %d paths" % self.max_paths)

    def run_path(self, st, work):
        while True:
            self.steps += 1
            if DEADLINE and time.time() > DEADLINE:
                raise Inconclusive("out of time in %s" % self.where(st))
            if self.steps > self.max_steps:
                raise Inconclusive("step budget exhausted in %s" % self.where(st))
            f = st.frame
            if self.loops is not None and not f.arrived and f.bb in f.fn.loops:
                r = self.loops.arrive(self, st, work)
                if r == "stop":
                    self.paths += 1
                    return
                f = st.frame = st.frame.marked()
            st.begin()
            try:
                done = self.block(st, work)
                st.j = None
                if done:
                    self.paths += 1
                    return
            except Fork as fk:
                st.undo()
                for alt in reversed(fk.alts):
                    s = st.copy()
                    try:
                        alt(s)
                    except Infeasible:
                        continue
                    except Fork as fk2:
                        # nested refinement: apply in sequence
                        self.nested(st, alt, fk2, work)
                        continue
                    s.trace = s.trace + ((fk.why,),) if fk.why else s.trace
                    work.append(s)
                return
            except Infeasible:
                st.undo()
                raise
            except Panic as p:
                if self.unwind:
                    st.j = None
                    if self.unwind_panic(st, p):
                        self.paths += 1
                        return
                    continue
                st.undo()
                st.j = None
                self.paths += 1
                self.finish(st, "panic", p.kind)
                return
            except Violation as v:
                w = self.where(st)
                v.st = st
                self.paths += 1
                self.violation(v.rule, v.msg, w, st)
                return

    def nested(self, st, alt, fk2, work):
        for alt2 in fk2.alts:
            s = st.copy()
            try:
                alt2(s)
                alt(s)
            except Infeasible:
                continue
            except Fork as fk3:
                self.nested(s, alt, fk3, work)
                continue
            work.append(s)

    def violation(self, rule, msg, where, st=None):
        if self.unwind and not (st is not None and st.ghost.get("panic")):
            return      # what happens without a panic is decided by the probe itself
        self.violations.append((rule, msg, where))

    def finish(self, st, kind, val):
        self.outcomes.append(Outcome(kind, st, val))
        if isinstance(getattr(self.loops, "exits", None), set):
            self.loops.exits.add(st.lh)

    def block(self, st, work):
        """one statement list + terminator of the current block; True when the path ended"""
        f = st.frame
        fn = f.fn
        b = fn.blocks[f.bb]
        for s in b["s"]:
            k = s[0]
            if k == "=":
                pl = s[1]
                if not pl[1]:
                    dty = self.prog.ty(fn.locals[pl[0]])
                    v = self.rvalue(st, s[2], dty)
                    st.put(("L", f.fid, pl[0]), v)
                else:
                    p, dty = self.place_ptr(st, pl)
                    v = self.rvalue(st, s[2], dty)
                    p, dty = self.place_ptr(st, pl)
                    self.store(st, p, v, dty)
            elif k == "dead":
                st.rm(("L", f.fid, s[1]))
            elif k == "sd":
                p, ty = self.place_ptr(st, s[1])
                v = self.load(st, p) if st.root(p.r)[0] != "L" else st.mem.get(p.r, UNINIT)
                if isinstance(v, A):
                    self.store(st, p, A(s[2], v.f))
                else:
                    self.store(st, p, A(s[2], ()))
            else:
                raise Inconclusive("statement %s" % k)
        return self.terminator(st, b["t"], work)

    def goto(self, st, bb):
        st.frame = st.frame.at(bb)

    def terminator(self, st, t, work):
        k = t[0]
        f = st.frame
        if k == "goto":
            self.goto(st, t[1])
        elif k == "switch":
            v = self.operand(st, t[1])
            ty = self.prog.ty(t[4])
            if is_tag(v, "cond"):
                v = ONE if self.truth(st, v) else ZERO
            if isinstance(v, Lin):
                v = st.norm(v)
                if v.is_const():
                    c = v.c
                    if c < 0:
                        c += 1 << (ty.d.get("bits") or 8)
                    for val, bb in t[2]:
                        if int(val) == c:
                            self.goto(st, bb)
                            return False
                    self.goto(st, t[3])
                    return False
                for val, bb in t[2]:
                    if st.decide("eq0", v - int(val)):
                        self.goto(st, bb)
                        return False
                self.goto(st, t[3])
                return False
            raise Inconclusive("switch on %r" % (v,))
        elif k == "ret":
            return self.do_return(st)
        elif k == "call":
            return self.do_call(st, t)
        elif k == "drop":
            return self.do_drop(st, t)
        elif k == "assert":
            c = self.operand(st, t[1])
            if self.truth(st, c) == t[2]:
                self.goto(st, t[4])
            else:
                raise Panic("assert:" + t[3])
        elif k == "unreachable":
            raise Violation("unreachable", "code declared unreachable is reached")
        elif k == "resume":
            return self.do_resume(st)
        elif k == "abort":
            self.finish(st, "abort", None)
            return True
        else:
            raise Inconclusive("terminator %s" % k)
        return False

    def do_return(self, st):
        f = st.frame
        v = st.mem.get(("L", f.fid, 0), UNINIT)
        if v is UNINIT:
            v = UNIT
        self.drop_locals(st, f.fid)
        st.frame = f.parent
        if isinstance(f.note, tuple) and f.note[0] == "then":
            v = f.note[1](self, st, v)
        if st.frame is None:
            self.finish(st, "ret", v)
            return True
        if f.dest is not None:
            self.store(st, f.dest, v)
        if f.ret is None:
            raise Violation("unreachable", "function declared diverging returned")
        self.goto(st, f.ret)
        return False

    def do_resume(self, st):
        f = st.frame
        self.drop_locals(st, f.fid)
        st.frame = f.parent
        self.unwound_note(st, f)
        return self.unwind_to(st, f.unw)

    def unwound_note(self, st, f):
        """storage is released although its contents panicked while they were dropped"""
        if isinstance(f.note, tuple) and f.note[0] == "then" and len(f.note) > 2 and f.note[2] == "free":
            f.note[1](self, st, UNIT)

    def unwind_panic(self, st, p):
        """a panic of the library itself; a second one while unwinding ends the process"""
        if st.ghost.get("panic"):
            self.finish(st, "abort", p.kind)
            return True
        st.ghost = dict(st.ghost)
        st.ghost["panic"] = "%s in %s" % (p.kind, self.where(st))
        f = st.frame
        t = f.fn.blocks[f.bb]["t"]
        return self.unwind_to(st, t[5] if t[0] in ("call", "assert") else None)

    def unwind_to(self, st, unw):
        """continue unwinding in the current frame (the caller) at its cleanup block"""
        while st.frame is not None:
            if unw is not None and unw >= 0:
                self.goto(st, unw)
                return False
            f = st.frame
            unw = f.unw
            self.drop_locals(st, f.fid)
            st.frame = f.parent
            self.unwound_note(st, f)
        self.finish(st, "unwound", st.ghost.get("panic"))
        return True

    def do_call(self, st, t):
        f = st.frame
        fnop, aops, dest, target, unw = t[1], t[2], t[3], t[4], t[5]
        fv = self.operand(st, fnop)
        args = [self.operand(st, o) for o in aops]
        atys = [self.prog.ty(x) for x in t[6]]
        if not is_tag(fv, "fn"):
            raise Inconclusive("call through %r" % (fv,))
        fty = self.prog.ty(fv[1])
        target_fn = fty.d["fn"]
        if not isinstance(target_fn, int):
            raise Inconclusive("unresolved call %r" % (target_fn,))
        fn = self.prog.fns[target_fn]
        dp, dty = self.place_ptr(st, dest)
        return self.invoke(st, fn, args, atys, dp, dty, target, unw)

    def invoke(self, st, fn, args, atys, dp, dty, target, unw):
        self.cur_call = (dp, target)
        if self.unwind and USER.search(fn.full) and self.models.choose_panic(self, st, fn.item + "() of the caller's type"):
            return self.unwind_to(st, unw)
        for pred, handler in self.summaries:
            if pred(self, st, fn):
                res = handler(self, st, fn, args, atys, dty, unw)
                if res is not NotImplemented:
                    return self.finish_call(st, res, dp, target, unw)
        m = self._mcache.get(fn.id)
        if m is None:
            m = self._mcache[fn.id] = self.models.find(fn) or False
        if m:
            ctx = CallCtx(self, st, fn, args, atys, dty, target, unw, dp)
            res = m(ctx)
            if res is not NotImplemented:
                self.calls_seen.add(fn.path)
                return self.finish_call(st, res, dp, target, unw)
        if not fn.body:
            if fn.kind == "virtual":
                raise Inconclusive("dynamic dispatch %s" % fn.full)
            raise Inconclusive("no body and no model for %s" % fn.full)
        # closures called through Fn* traits
        args2 = args
        if fn.spread is not None:
            pass
        elif fn.d.get("closure") and len(args) == 2 and fn.argc != len(args):
            tup = args[-1]
            args2 = list(args[:-1]) + list(tup.f if isinstance(tup, A) else ())
        elif fn.d.get("closure") and fn.argc == len(args) and len(args) == 2 and atys[1].k == "tuple" and \
                self.prog.ty(fn.locals[2]).id != atys[1].id:
            args2 = [args[0]] + list(args[1].f)
        if fn.kind == "closureonce":
            args2 = args
        self.call_fn(st, fn, args2, dp, target, unw)
        return False

    def finish_call(self, st, res, dp, target, unw):
        if is_tag(res, "pushed"):
            return st.frame is None
        if target is None:
            raise Inconclusive("diverging call returned")
        # the destination may live in a node that was refined meanwhile
        self.store(st, dp, res)
        self.goto(st, target)
        return False

    def do_drop(self, st, t):
        p, ty = self.place_ptr(st, t[1])
        self.goto(st, t[2])
        return self.drop_at(st, p, ty, t[2], t[3])

    def drop_at(self, st, p, ty, ret, unw):
        """drop the value at p, then continue at block `ret` of the current frame"""
        if not ty.d["nd"]:
            return False
        r = self.models.drop(self, st, p, ty, ret, unw)
        if r is not NotImplemented:
            return bool(r)
        d = ty.d["drop"]
        if d is None:
            raise Inconclusive("drop of %s" % ty.name)
        fn = self.prog.fns[d]
        for pred, handler in self.summaries:
            if pred(self, st, fn):
                res = handler(self, st, fn, [p], [ty], ty, unw)
                if res is not NotImplemented:
                    return st.frame is None
        if not fn.body:
            raise Inconclusive("drop glue of %s has no body" % ty.name)
        self.call_fn(st, fn, [p], None, ret, unw)
        return False


# functions of the caller's types: elements, iterators, hashers, formatters
USER = re.compile(r"^<&?(?:mut )?opq::\w+ as |^<(?:trees::)?(?:\w+::)*(?:Node|RcNode|Tree|Forest)<opq::Elem> as std::(?:cmp|hash|fmt)::")


class CallCtx:
    __slots__ = ("ip", "st", "fn", "args", "atys", "dty", "target", "unw", "dp")

    def __init__(self, ip, st, fn, args, atys, dty, target, unw, dp):
        self.ip = ip
        self.st = st
        self.fn = fn
        self.args = args
        self.atys = atys
        self.dty = dty
        self.target = target
        self.unw = unw
        self.dp = dp


def norm_path(st, p):
    return tuple((s[0], st.norm(s[1])) if is_tag(s, "i") else s for s in p)


def short(full):
    import re
    s = full.replace("opq::Elem", "T").replace("trees::", "")
    return s
