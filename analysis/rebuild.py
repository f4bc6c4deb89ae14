"""Building a tree or forest from a breadth-first stream.

The node buffer is a function of one number: c, how many of its slots are filled.  D(i) is the degree the stream
reports for node i, F(j) = 1 + D(0) + .. + D(j-1), Z(i) the reported number of descendants.  In a buffer with c filled
slots, node i < c has
    parent        the p with F(p) <= i < F(p+1)         (none for node 0)
    prev / next   i-1 / i+1, when that one has the same parent (and is filled)
    first, last   F(i), min(c, F(i+1)) - 1              (none when that interval is empty)
    size          (D(i), Z(i)), its own datum, and one owner; every other slot is an empty node.
Nodes are materialised on demand with these (lazily computed) fields; at every loop head the materialised nodes are
compared with the same description for the new number of filled slots, then forgotten.  Integer variables are
generalised by keeping those candidate relations that hold on every arrival.

Two modes: "consistent" (the stream is that of a real tree: F(j) > j for every j < N and F(N) = N) and "arbitrary"
(anything, of any length)."""
import random

import heap as H
from core import *
from heap import is_none
from interp import Interp
from models import Models

S = "b"


def F(st, j):
    return st.norm(atom(("F", S, st.norm(j))))


def deg(st, i):
    return st.norm(atom(("F", S, st.norm(i + 1))) - atom(("F", S, st.norm(i))))


def desc(st, i):
    g = st.ghost["bfs"]
    if st.norm(i) == ZERO:
        return g["z0"]
    return atom(("Z", S, st.norm(i)))


def lemmas(st, idx, lins):
    """facts about prefix sums F(a), a in idx"""
    g = st.ghost.get("bfs")
    if not g:
        return []
    base = [l for l in lins if not any(a[0] == "F" for a, _ in l.t)]
    N = g["N"] if g["consistent"] else None
    key = frozenset(base)
    memo = g["memo"].setdefault(key, {})

    def le(a, b):
        d = b - a
        if not d.t:
            return d.c >= 0
        r = memo.get(d)
        if r is None:
            r = memo[d] = infeasible(base + [-d - 1])
        return r
    out = []
    idx = list(dict.fromkeys(st.norm(a) for a in idx))
    fs = [F(st, a) for a in idx]
    for i, a in enumerate(idx):
        fa = fs[i]
        out.append(fa - 1)
        if N is not None:
            if le(a + 1, N):
                out.append(fa - a - 1)
            if le(a, N):
                out.append(N - fa)
                if le(N, a):
                    out.append(fa - N)
        for k, b in enumerate(idx):
            if k != i and le(a, b):
                out.append(fs[k] - fa)
    return [l for l in out if l.t or l.c < 0]


# ------------------------------------------------------------------ the buffer
def new_buffer(st, pid, items):
    """called when a node buffer is boxed"""
    for it in items:
        bad = default_node(st, it[1])
        if bad:
            raise Violation("buffer", "a slot of a new node buffer is not an empty node: %s" % bad)
    p = dict(st.mem[("v", pid)])
    p["table"] = slot
    p["c"] = ZERO
    st.put(("v", pid), p)


def default_node(st, v):
    L = H.L
    if not (isinstance(v, A) and len(v.f) == len(L.HF)):
        return "%r" % (v,)
    cell = [x for x in v.f if is_tag(x, "rcell")]
    cnt = [st.norm(x) for x in v.f if isinstance(x, Lin)]
    if len(cell) != 1 or cnt != [ONE]:
        return "not a cell with one owner"
    n = cell[0][1]
    for k in ("prev", "next", "head", "tail", "up"):
        if not is_none(n.f[L.F[k]]):
            return "field %s is set" % k
    if not eqv(st, n.f[L.F["size"]], L.mk_size(ZERO, ZERO)):
        return "its size is not zero"
    if n.f[L.F["data"]].v != L.DV["None"]:
        return "it has a datum"
    return None


def slot(ip, st, pid, i):
    """a slot of the buffer that is not materialised yet"""
    pl = st.mem[("v", pid)]
    if not st.prove_ge0(pl["len"] - i - 1):
        raise Violation("bounds", "unchecked access to slot %r of a buffer of %r nodes" % (i, pl["len"]))
    filled = st.decide("ge0", pl["c"] - i - 1)
    if filled and st.ghost["bfs"]["hidden"]:
        st.decide("eq0", i)

    def add(s):
        materialise(s, pid, i, filled)
    if st.j is not None:
        raise Fork([add])
    add(st)
    return P(("n", st.mem[("v", pid)]["slots"][-1][1]), ())


def template(st, pid, i, filled, hidden):
    L = H.L
    if not filled:
        none = L.mk_data("None", None, None)
        return L.mk_node(prev=NONE, next=NONE, head=NONE, tail=NONE, up=NONE, size=L.mk_size(ZERO, ZERO), data=none)
    own = P(("v", pid), ())
    data = L.mk_data("PiledNone", None, own) if hidden else L.mk_data("Piled", ("e", S, i), own)
    lz = {k: Lazy(("bfs", k)) for k in ("prev", "next", "head", "tail", "up")}
    return L.mk_node(size=L.mk_size(deg(st, i), desc(st, i)), data=data, **lz)


def materialise(s, pid, i, filled):
    hidden = filled and s.ghost["bfs"]["hidden"] and s.norm(i) == ZERO
    nid = s.fresh("n")
    v = template(s, pid, i, filled, hidden)
    s.put(("n", nid), {"val": v, "orig": v, "bidx": i, "pid": pid, "filled": filled, "par": None, "kind": ("pl", pid), "borrow": ZERO, "rc": ONE,
                       "weak": ZERO, "src": (S, i) if filled else (("new", nid), ZERO), "st": "live", "hidden": hidden, "kids": "exp",
                       "deg0": ZERO, "desc0": ZERO, "dead": False, "handles": ZERO, "wk": ZERO, "listed": None})
    H.set_pile(s, pid, slots=s.mem[("v", pid)]["slots"] + ((i, nid),))
    return nid


def parent_of(st, nid):
    """index of the parent of node i >= 1"""
    r = H.rec(st, nid)
    if r["par"] is not None:
        return st.norm(r["par"])

    def add(s):
        r = H.rec(s, nid)
        i = r["bidx"]
        p = sym(s.fresh("par"))
        H.upd(s, nid, par=p)
        s.assume_ge0(i - p - 1)
        s.assume_ge0(i - atom(("F", S, p)))
        s.assume_ge0(atom(("F", S, p + 1)) - i - 1)
    if st.j is not None:
        raise Fork([add])
    add(st)
    return H.rec(st, nid)["par"]


def force(ip, st, nid, field):
    r = H.rec(st, nid)
    i = st.norm(r["bidx"])
    pid = r["pid"]
    c = st.norm(st.mem[("v", pid)]["c"])

    def ptr(j):
        p = ip.models.pile_slot(ip, st, pid, st.norm(j))
        return SOME(H.nid_ptr(p.r[1]))
    v = NONE
    if field == "head" or field == "tail":
        lo, hi = F(st, i), F(st, i + 1)
        if not st.decide("ge0", lo - c) and not st.decide("ge0", lo - hi):
            if field == "head":
                v = ptr(lo)
            elif st.decide("ge0", c - hi):
                v = ptr(hi - 1)
            else:
                v = ptr(c - 1)
    elif not st.decide("eq0", i):
        p = parent_of(st, nid)
        if field == "up":
            v = ptr(p)
        elif field == "prev":
            if not st.decide("eq0", i - F(st, p)):
                v = ptr(i - 1)
        elif field == "next":
            if st.decide("ge0", c - i - 2) and st.decide("ge0", F(st, p + 1) - i - 2):
                v = ptr(i + 1)
    r = H.rec(st, nid)
    k = H.L.F[field]
    fs, os_ = list(r["val"].f), list(r["orig"].f)
    fs[k] = os_[k] = v
    H.upd(st, nid, val=A(0, tuple(fs)), orig=A(0, tuple(os_)))


# ------------------------------------------------------------------ the stream
def stream_next(c):
    st, ip = c.st, c.ip
    v = ip.load(st, c.args[0])
    g = st.ghost["bfs"]
    k = st.norm(v[2])
    i = st.norm(k + (1 if g["hidden"] else 0))
    if st.decide("ge0", i - g["N"]):
        return NONE
    ip.store(st, c.args[0], (v[0], v[1], st.norm(k + 1)))
    vt = [t for t in ip.prog.tys if t.k == "adt" and t.path == "trees::bfs::Visit" and "opq::Elem" in t.name and "&" not in t.name][0]
    return SOME(H.L.mk_struct(vt, data=("e", S, i), size=H.L.mk_size(deg(st, i), desc(st, i))))


# ------------------------------------------------------------------ folding
def eqv(st, a, b):
    if a is b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.must_eq(a, b)
    if isinstance(a, A) and isinstance(b, A):
        return a.v == b.v and len(a.f) == len(b.f) and all(eqv(st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqv(st, x, y) for x, y in zip(a, b))
    if isinstance(a, P) and isinstance(b, P):
        return st.root(a.r) == st.root(b.r) and a.p == b.p
    return a == b


def some_slot(st, v):
    """index of the node an optional link leads to, None for no link"""
    if isinstance(v, Lazy):
        return "lazy"
    if is_none(v):
        return None
    p = v.f[0]
    if not isinstance(p, P) or st.root(p.r)[0] != "n":
        raise Violation("links", "a link does not lead to a node of the buffer")
    r = st.mem.get(st.root(p.r))
    if r is None or "bidx" not in r:
        raise Violation("links", "a link leads out of the buffer")
    if p.p != H.NP:
        raise Inconclusive("a link of an unusual form")
    return st.norm(r["bidx"])


def nlist(st, pid):
    return [(st.norm(i), nid, H.rec(st, nid)) for i, nid in st.mem[("v", pid)]["slots"]]


def fold(ip, st, pid, final=False):
    """compares the materialised nodes with the description for the present number of filled slots"""
    L = H.L
    pl = st.mem[("v", pid)]
    c = st.norm(pl["c"])
    nodes = nlist(st, pid)
    new = None
    for i, nid, r in nodes:
        d = r["val"].f[L.F["data"]]
        if not r["filled"] and d.v != L.DV["None"]:
            if not st.must_eq(i, c):
                raise Violation("slot", "slot %r is filled while the first %r are" % (i, c))
            if new is not None:
                raise Inconclusive("one slot materialised twice")
            new = (i, nid, r)
    for i, nid, r in nodes:
        for k in ("prev", "next", "head", "tail", "up"):
            a, b = r["val"].f[L.F[k]], r["orig"].f[L.F[k]]
            if isinstance(b, Lazy) and not isinstance(a, Lazy):
                # stored without being read: work out what was there
                keep_ = r["val"]
                force(ip, st, nid, k)
                r2 = H.rec(st, nid)
                H.upd(st, nid, val=keep_)
                assert not isinstance(r2["orig"].f[L.F[k]], Lazy)
    nodes = nlist(st, pid)
    exp = {nid: list(r["orig"].f) for i, nid, r in nodes}

    def at(j):
        for i, nid, r in nodes:
            if st.must_eq(i, j):
                return nid
        return None
    upi = None
    if new is not None:
        i, nid, r = new
        hidden = st.ghost["bfs"]["hidden"]
        root = st.decide("eq0", i)
        e = exp[nid]
        e[L.F["size"]] = L.mk_size(deg(st, i), desc(st, i))
        own = P(("v", pid), ())
        if root and hidden:
            e[L.F["data"]] = L.mk_data("PiledNone", None, own)
        else:
            e[L.F["data"]] = L.mk_data("Piled", ("e", S, i), own)
        if not root:
            upi = some_slot(st, r["val"].f[L.F["up"]])
            if upi is None:
                raise Violation("links", "node %r is added without a parent" % i)
            if not (st.prove_ge0(c - upi - 1) and st.prove_ge0(i - F(st, upi))):
                raise Violation("links", "node %r is added under node %r, which comes too early" % (i, upi))
            if not st.prove_ge0(F(st, upi + 1) - i - 1):
                raise Violation("links", "node %r is added under node %r, which has all its children" % (i, upi))
            par = at(upi)
            first = st.decide("eq0", i - F(st, upi))
            me = SOME(H.nid_ptr(nid))
            e[L.F["up"]] = SOME(H.nid_ptr(par))
            exp[par][L.F["tail"]] = me
            if first:
                exp[par][L.F["head"]] = me
            else:
                pv = at(i - 1)
                if pv is None:
                    raise Violation("links", "node %r is not linked to the sibling before it" % i)
                e[L.F["prev"]] = SOME(H.nid_ptr(pv))
                exp[pv][L.F["next"]] = me
    names = {v: k for k, v in L.F.items()}
    for i, nid, r in nodes:
        if r["st"] != "live":
            raise Violation("memory", "node %r is released" % i)
        if r["borrow"] != ZERO:
            raise Violation("borrow", "a borrow of node %r is left" % i)
        if not st.must_eq(r["rc"], ONE):
            raise Violation("count", "the count of node %r is %r" % (i, r["rc"]))
        for k, (a, b) in enumerate(zip(r["val"].f, exp[nid])):
            if not eqv(st, a, b):
                what = names[k]
                raise Violation("sizes" if what == "size" else "data" if what == "data" else "links",
                                "%s of node %r %s" % (what, i, why(st, a, b)))
    p = dict(st.mem[("v", pid)])
    if new is not None:
        p["c"] = st.norm(c + 1)
    st.put(("v", pid), p)
    return new


def why(st, a, b):
    def sh(v):
        try:
            j = some_slot(st, v)
            return "node %r" % j if isinstance(j, Lin) else "nothing" if j is None else "the old one"
        except Exception:
            return repr(v)[:80]
    return "is %s instead of %s" % (sh(a), sh(b))


def refresh(st, pid, keep):
    """after folding: nodes nobody points to are forgotten, the others get lazily computed fields again"""
    pl = dict(st.mem[("v", pid)])
    c = st.norm(pl["c"])
    slots = []
    for i, nid, r in nlist(st, pid):
        if nid not in keep:
            st.rm(("n", nid))
            continue
        filled = st.decide("ge0", c - i - 1)
        hid = False
        if filled and st.ghost["bfs"]["hidden"]:
            hid = st.decide("eq0", i)
        v = template(st, pid, i, filled, hid)
        r = dict(r)
        r.update(val=v, orig=v, filled=filled, par=None, hidden=hid, src=(S, i) if filled else r["src"])
        st.put(("n", nid), r)
        slots.append((i, nid))
    pl["slots"] = tuple(slots)
    st.put(("v", pid), pl)


# ------------------------------------------------------------------ loop heads
class Walker:
    """visits every number of the live part of the state in a fixed order; with `repl` it rewrites them"""

    def __init__(self, st, repl=None):
        self.st = st
        self.repl = repl
        self.nums = []
        self.keys = []
        self.seen = {}

    def num(self, l):
        self.nums.append(self.st.norm(l))
        return self.repl[len(self.nums) - 1] if self.repl is not None else l

    def root(self, r):
        r = self.st.root(r)
        if r not in self.seen:
            self.seen[r] = len(self.seen)
            self.keys.append(r)
        return r

    def val(self, v):
        """-> (skeleton, rewritten value)"""
        if isinstance(v, Lin):
            return "#", self.num(v)
        if isinstance(v, A):
            e = [x for x in v.f if isinstance(x, tuple) and len(x) == 3 and x[:2] == ("e", S)]
            if len(v.f) == 2 and len(e) == 1:
                # a visit: its datum with the size the stream reports for it
                z = v.f[1 - v.f.index(e[0])]
                st = self.st
                if isinstance(z, A) and eqv(st, z, H.L.mk_size(deg(st, e[0][2]), desc(st, e[0][2]))):
                    _, d = self.val(e[0])
                    i = d[2]
                    nz = z if self.repl is None else H.L.mk_size(atom(("F", S, i + 1)) - atom(("F", S, i)), desc(st, i))
                    return ("visit", v.f.index(e[0])), A(v.v, (d, nz) if v.f[0] is e[0] else (nz, d))
            xs = [self.val(x) for x in v.f]
            return ("A", v.v, tuple(x for x, _ in xs)), A(v.v, tuple(y for _, y in xs))
        if isinstance(v, P):
            r = self.root(v.r)
            a, b = self.val(v.p)
            m, n = (None, None) if v.m is None else self.val(v.m)
            return ("P", self.seen[r] if r[0] != "L" else r[2], a, m), P(r, b, n)
        if isinstance(v, tuple):
            if v and v[0] in ("vec", "deq") and len(v) == 2 and v in self.st.mem:
                return ("V", self.root(v) and self.seen[self.st.root(v)]), v
            xs = [self.val(x) for x in v]
            return tuple(x for x, _ in xs), tuple(y for _, y in xs)
        return repr(v), v


class Build:
    """loop heads of building code"""

    def __init__(self, core_loops, fine):
        self.core = core_loops
        self.fine = fine        # loop states also distinguished by which numbers are equal or adjacent
        self.entries = {}
        self.gens = 0
        self.heads = set()

    def arrive(self, ip, st, work):
        base = st.copy()
        try:
            return self.arrive_(ip, st)
        except Fork as fk:
            for alt in reversed(fk.alts):
                s = base.copy()
                try:
                    alt(s)
                except Infeasible:
                    continue
                except Fork as fk2:
                    ip.nested(base, alt, fk2, work)
                    continue
                work.append(s)
            return "stop"
        except Infeasible:
            return "stop"
        except Violation as v:
            ip.violation(v.rule, v.msg, ip.where(st), st)
            return "stop"

    def arrive_(self, ip, st):
        self.core.gc(st)
        pids = sorted(k[1] for k in st.mem if k[0] == "v")
        for pid in pids:
            if "table" in st.mem[("v", pid)]:
                fold(ip, st, pid)
        vec_fold(st)
        w = Walker(st)
        skel = self.scan(st, w)
        keep = {r[1] for r in w.keys if r[0] == "n"}
        for pid in pids:
            if "table" in st.mem[("v", pid)]:
                refresh(st, pid, keep)
        w = Walker(st)
        skel = self.scan(st, w)
        vals = w.nums
        part = tuple("0" if st.must_eq(v, ZERO) else "+" if st.prove_ge0(v - 1) else "?" for v in vals)
        if self.fine:
            ds = [st.norm(b - a) for i, a in enumerate(vals) for b in vals[i + 1:]]
            part += tuple(d.c if d.is_const() and abs(d.c) <= 1 else "" for d in ds)
        fr = []
        f = st.frame
        while f is not None:
            fr.append((f.fn.id, f.bb))
            f = f.parent
        key = (tuple(fr), skel, part)
        self.heads.add(fr[0])
        e = self.entries.get(key)
        ms = samples(st, vals)
        if e is None:
            e = self.entries[key] = [x for x in candidates(st, vals) if fits(ms, x) and holds(st, vals, x)]
        else:
            kept = [x for x in e if fits(ms, x) and holds(st, vals, x)]
            if len(kept) == len(e):
                return "stop"
            e = self.entries[key] = kept
        self.gens += 1
        if self.gens > 400:
            raise Inconclusive("no invariant found for the loop in %s" % ip.where(st))
        self.install(st, e, len(vals))
        return "go"

    def scan(self, st, w):
        fids = []
        f = st.frame
        while f is not None:
            fids.append(f.fid)
            f = f.parent
        order = {x: i for i, x in enumerate(fids)}
        sk = []
        out = {}
        for k in sorted((k for k in st.mem if k[0] == "L"), key=lambda k: (order.get(k[1], 99), k[2])):
            a, b = w.val(st.mem[k])
            sk.append((order.get(k[1]), k[2], a))
            out[k] = b
        i = 0
        while i < len(w.keys):
            k = w.keys[i]
            i += 1
            if k[0] == "n":
                r = H.rec(st, k[1])
                if "bidx" not in r:
                    raise Inconclusive("a node outside of the buffer at a loop head")
                w.root(("v", r["pid"]))
                a, b = w.val(r["bidx"])
                sk.append((w.seen[k], "node", w.seen[("v", r["pid"])]))
                out[k] = b
            elif k[0] == "v":
                p = st.mem[k]
                a, b = w.val((p["c"], p["len"], H.pile_ref(st, k[1])))
                sk.append((w.seen[k], "pile", p["st"]))
                out[k] = b
            elif k[0] in ("o", "vec", "deq") and k in st.mem:
                a, b = w.val(st.mem[k])
                sk.append((w.seen[k], a))
                out[k] = b
            elif k[0] not in ("L",):
                sk.append((w.seen[k], k if k[0] in ("dangling", "null", "str", "c") else k[0]))
        for k in st.mem:
            if k[0] == "v" and k not in w.seen:
                raise Inconclusive("a node buffer is lost")
        w.out = out
        return tuple(sk)

    def install(self, st, facts, n):
        par = st.ghost["bfs"]["params"]
        xs = [sym(st.fresh("g")) for _ in range(n)]
        st.facts = tuple(f for f in (st.norm(f) for f in st.facts) if f.t and all(a in par for a, _ in f.t))
        w = Walker(st, xs)
        self.scan(st, w)
        st.sub = {k: v for k, v in ((k, st.norm(v)) for k, v in st.sub.items()) if k in par and all(a in par for a, _ in v.t)}
        for k, v in w.out.items():
            if k[0] == "n":
                H.upd(st, k[1], bidx=v)
            elif k[0] == "v":
                c, ln, ref = v
                H.set_pile(st, k[1], ref=ref, c=c, len=ln)
            else:
                st.put(k, v)
        for x in sorted(facts, key=lambda x: {"eqp": 0, "eqs": 0, "eqd": 0}.get(x[0], 1 if x[0].startswith("eq") else 2)):
            l, eq = expr(xs, x)
            if eq:
                st.assume_eq(l, ZERO)
            else:
                st.assume_ge0(l)
        for k in list(st.mem):
            if k[0] == "v" and "table" in st.mem[k]:
                pl = st.mem[k]
                H.set_pile(st, k[1], ref=st.norm(H.pile_ref(st, k[1])), c=st.norm(pl["c"]), len=st.norm(pl["len"]),
                           slots=tuple((st.norm(H.rec(st, nid)["bidx"]), nid) for _, nid in pl["slots"]))
                for i, nid in st.mem[k]["slots"]:
                    r = H.rec(st, nid)
                    v = template(st, k[1], i, r["filled"], r["hidden"])
                    H.upd(st, nid, bidx=i, val=v, orig=v, src=(S, i) if r["filled"] else r["src"])
        st.log = ()
        st.trace = ()
        st.decided = ()


def vec_fold(st):
    """vectors of equal elements"""
    for k in list(st.mem):
        if k[0] == "vec" and st.mem[k]:
            out = []
            for it in st.mem[k]:
                n = ONE if it[0] == "e" else it[2]
                if it[0] in ("e", "r") and out and out[-1][0] == "r" and eqv(st, out[-1][1], it[1]):
                    out[-1] = ("r", it[1], st.norm(out[-1][2] + n))
                elif it[0] == "e" and is_tag(it[1], "frozen"):
                    out.append(it)
                elif it[0] == "e":
                    out.append(("r", it[1], ONE))
                else:
                    out.append(it)
            if all(default_like(st, x[1]) for x in out):
                st.put(k, tuple(out))


def default_like(st, v):
    return isinstance(v, A) and H.L.shared is not None and default_node(st, v) is None


def candidates(st, vals):
    g = st.ghost["bfs"]
    par = g["params"]
    n = len(vals)
    R = range(n)
    out = []
    for x in R:
        v = st.norm(vals[x])
        if all(a in par for a, _ in v.t):
            out.append(("eqp", x, v))
        for p in g["bounds"]:
            out.append(("lep", x, p, 0))
            out.append(("lep", x, p, 1))
            out.append(("gep", x, p, 0))
            for k in (-1, 0, 1):
                for y in R:
                    if y > x:
                        out.append(("eqs", x, y, p + k))
        out.append(("ge1", x))
        for y in R:
            if x == y:
                continue
            for k in (0, 1, 2):
                if x < y or k:
                    out.append(("eqd", x, y, k))
                out.append(("le", x, y, k))
            for k in (0, 1):
                out.append(("leF", x, y, k, 0))
                out.append(("leF", x, y, k, 1))
                out.append(("geF", x, y, k, 0))
                if k:
                    out.append(("geF", x, y, k, 1))
                out.append(("eqF", x, y, k))
                for z in R:
                    if z != x and z != y:
                        if x < z:
                            out.append(("eqFs", x, z, y, k))
                        out.append(("eqFd", x, z, y, k))
    return out


def expr(v, x):
    """-> (linear expression, is an equality)"""
    t = x[0]
    if t == "eqp":
        return v[x[1]] - x[2], True
    if t == "eqs":
        return v[x[1]] + v[x[2]] - x[3], True
    if t == "eqd":
        return v[x[1]] + x[3] - v[x[2]], True
    if t == "lep":
        return x[2] - v[x[1]] - x[3], False
    if t == "gep":
        return v[x[1]] - x[2] - x[3], False
    if t == "ge1":
        return v[x[1]] - 1, False
    if t == "le":
        return v[x[2]] - v[x[1]] - x[3], False

    def f(y, k):
        return atom(("F", S, v[y] + k))
    if t == "leF":      # F(y+k) <= x - j
        return v[x[1]] - f(x[2], x[3]) - x[4], False
    if t == "geF":
        return f(x[2], x[3]) - v[x[1]] - x[4], False
    if t == "eqF":
        return v[x[1]] - f(x[2], x[3]), True
    if t == "eqFs":     # x + z == F(y+k)
        return v[x[1]] + v[x[2]] - f(x[3], x[4]), True
    if t == "eqFd":     # x + F(y+k) == z
        return v[x[1]] + f(x[3], x[4]) - v[x[2]], True
    raise AssertionError(x)


def zs(i):
    return (7 * i * i + 3 * i) % 11


def samples(st, vals):
    """a few numeric instances of the state, used to discard candidates cheaply"""
    g = st.ghost["bfs"]
    rnd = random.Random(1)
    facts = [st.norm(f) for f in st.facts]
    free = []
    subs = [(k, v) for k, v in st.sub.items() if k[0] == "F"]

    def need(l):
        for a, _ in l.t:
            if a[0] == "F":
                need(a[2])
            elif a[0] == "Z":
                need(a[2])
            elif a not in free:
                free.append(a)
    for l in facts + list(vals) + [g["N"]] + [st.norm(v) for _, v in subs] + [st.norm(k[2]) for k, _ in subs] + [st.norm(p) for p in g["bounds"]]:
        need(l)
    free = [a for a in free if a != ("s", "N")]
    out, seen = [], set()
    for _ in range(3000):
        N = rnd.choice((1, 2, 3, 4, 5, 6, 8)) if g["consistent"] or g["hidden"] or rnd.random() < .8 else 0
        fs = [1]
        for j in range(40):
            d = rnd.choice((0, 0, 1, 1, 2, 3, 5))
            if g["consistent"]:
                if j >= N:
                    d = 0
                else:
                    d = min(d, N - fs[-1])
                    d = max(d, min(j + 2, N) - fs[-1], 0)
            fs.append(fs[-1] + d)
        m = {("s", "N"): N}
        for a in free:
            m[a] = rnd.choice((0, 0, 1, 1, 2, 3, N, max(N - 1, 0), max(N - 2, 0), rnd.randint(0, 8), fs[rnd.randint(0, 3)]))

        def ev(l):
            t = l.c
            for a, k in l.t:
                if a[0] == "F" or a[0] == "Z":
                    i = ev(a[2])
                    if not 0 <= i < 40:
                        raise IndexError
                    t += k * (fs[i] if a[0] == "F" else zs(i))
                else:
                    t += k * m[a]
            return t
        try:
            if any(ev(f) < 0 for f in facts) or any(ev(atom((k[0], k[1], st.norm(k[2])))) != ev(st.norm(v)) for k, v in subs):
                continue
            if any(ev(atom(a)) < 0 for a in free):
                continue
            vs = [ev(v) for v in vals]
        except IndexError:
            continue
        if (tuple(vs), tuple(fs)) in seen:
            continue
        seen.add((tuple(vs), tuple(fs)))
        out.append((vs, fs, m))
        if len(out) >= 30:
            break
    return out


def fits(ms, x):
    for vs, fs, m in ms:
        l, eq = expr([const(v) for v in vs], x)
        t = l.c
        for a, k in l.t:
            if a[0] == "F" or a[0] == "Z":
                i = a[2].c
                if not 0 <= i < len(fs):
                    break
                t += k * (fs[i] if a[0] == "F" else zs(i))
            elif a in m:
                t += k * m[a]
            else:
                break
        else:
            if (t != 0) if eq else (t < 0):
                return False
    return True


def holds(st, vals, x):
    l, eq = expr(vals, x)
    l = st.norm(l)
    if eq:
        return l == ZERO or (bool(l.t) and st.prove_ge0(l) and st.prove_ge0(-l))
    return st.prove_ge0(l)


# ------------------------------------------------------------------ the analyses
def run(prog, fname, kind, consistent):
    f, s = run_(prog, fname, kind, consistent, False)
    if f and fname in prog.roots:
        f2, s2 = run_(prog, fname, kind, consistent, True)
        if len(set(f2)) < len(set(f)):
            return f2, s2
    return f, s


def run_(prog, fname, kind, consistent, fine):
    """-> (findings [(rule, msg, where)], stats)"""
    from loops import Loops
    finds = []
    st = State()
    stats = {"paths": 0, "steps": 0, "loops": 0, "fns": set(), "models": set(), "panics": 0}
    if fname not in prog.roots:
        return [("anchor", "the client function %s was not compiled" % fname, fname)], stats
    fn = prog.fns[prog.roots[fname]]
    ip = Interp(prog, Models(prog), {"max_steps": 400000, "max_paths": 4000})
    ip.loops = Build(Loops(), fine)
    hidden = kind == "forest"
    N = sym("N")
    st.ghost = dict(st.ghost)
    g = {"N": N, "consistent": consistent, "hidden": hidden, "memo": {}, "params": set(), "z0": None, "bounds": ()}
    st.ghost["bfs"] = g
    z0 = N - 1 if consistent else sym("Z0")
    g["z0"] = z0
    g["bounds"] = (N,) if consistent else (N, z0 + 1)
    g["params"] = {("s", "N"), ("s", "Z0"), ("s", "sd"), ("s", "sz"), ("F", S, ONE)}
    if consistent or hidden:
        st.assume_ge0(N - 1)
    args = [("qv", S, ZERO)]
    if hidden:
        args += [deg(st, ZERO), z0]
    elif consistent:
        args += [ONE, N - 1]
    else:
        args += [sym("sd"), sym("sz")]
    try:
        ip.call_fn(st, fn, args, None, None, None)
        ip.run(st)
    except Inconclusive as e:
        finds.append(("analysis", "no verdict: %s" % e, getattr(ip, "last_where", fn.full)))
    except Violation as v:
        finds.append((v.rule, v.msg, fn.full))
    finds += ip.violations
    for o in ip.outcomes:
        if o.kind in ("panic", "abort", "unwound"):
            stats["panics"] += 1
            if consistent:
                finds.append(("panic", "panics (%s) on a consistent stream" % (o.val,), fn.full))
            continue
        work = [o.st.copy()]
        while work:
            s = work.pop()
            sv = s.copy()
            try:
                for m in result(ip, s, o.val, kind, consistent):
                    finds.append(m + (fn.full,))
            except Fork as fk:
                for alt in fk.alts:
                    s2 = sv.copy()
                    try:
                        alt(s2)
                    except Infeasible:
                        continue
                    work.append(s2)
            except Infeasible:
                pass
            except Violation as v:
                finds.append((v.rule, v.msg, fn.full))
            except Inconclusive as e:
                finds.append(("analysis", "no verdict at exit: %s" % e, fn.full))
    stats["paths"] = len(ip.outcomes)
    stats["steps"] = ip.steps
    stats["loops"] = len(ip.loops.heads)
    stats["invariants"] = sum(len(v) for v in ip.loops.entries.values())
    stats["fns"] = {prog.fns[i].full for i in ip.fns_seen if prog.fns[i].crate == "trees"}
    stats["models"] = set(ip.calls_seen)
    if not any(o.kind == "ret" for o in ip.outcomes) and not finds:
        finds.append(("analysis", "no path returns a result", fn.full))
    return finds, stats


def result(ip, st, v, kind, consistent):
    st.j = None
    out = []
    g = st.ghost["bfs"]
    p = [x for x in v.f if isinstance(x, P)] if isinstance(v, A) else []
    if len(p) != 1:
        raise Inconclusive("result %r" % (v,))
    r = st.root(p[0].r)
    if r[0] != "n" or "bidx" not in st.mem.get(r, {}):
        return [("root", "the result is not the root of the buffer")]
    pid = H.rec(st, r[1])["pid"]
    fold(ip, st, pid)
    i = st.norm(H.rec(st, r[1])["bidx"])
    if not st.must_eq(i, ZERO):
        out.append(("root", "the result's root is node %r" % i))
    pl = st.mem[("v", pid)]
    c, n, ref = st.norm(pl["c"]), pl["len"], H.pile_ref(st, pid)
    if [k for k in st.mem if k[0] == "v"] != [("v", pid)]:
        out.append(("buffer", "more than one node buffer"))
    if pl["st"] != "live":
        out.append(("buffer", "the buffer is released"))
    if not st.prove_ge0(c - 1):
        out.append(("root", "the root is an empty node"))
    if consistent:
        if not st.must_eq(c, g["N"]):
            out.append(("nodes", "%r of %r nodes are built" % (c, g["N"])))
        if not st.must_eq(n, g["N"]):
            out.append(("buffer", "the buffer has %r slots for %r nodes" % (n, g["N"])))
        if not st.must_eq(ref, g["N"]):
            out.append(("count", "the count of the buffer is %r for %r nodes" % (ref, g["N"])))
    else:
        if not st.prove_ge0(n - c):
            out.append(("bounds", "more nodes (%r) than slots (%r)" % (c, n)))
        if not st.prove_ge0(ref - c):
            out.append(("count", "the count of the buffer is %r for %r nodes" % (ref, c)))
    for k in st.mem:
        if k[0] == "n" and "bidx" not in st.mem[k]:
            out.append(("nodes", "a node outside of the buffer is made"))
    return out


# ------------------------------------------------------------------ a published buffer keeps its slots
KEEPERS = {"push", "vec_extend", "insert", "reserve", "reserve_exact", "try_reserve", "try_reserve_exact", "truncate", "pop", "pop_if", "drain", "clear", "remove", "swap_remove",
           "append", "extend", "extend_from_slice", "resize", "resize_with", "shrink_to_fit", "shrink_to", "split_off", "splice", "retain",
           "retain_mut", "dedup", "dedup_by", "dedup_by_key", "set_len", "into_boxed_slice", "into_iter", "leak"}


def is_buffer(name):
    return "Vec<" in name and "Shared<" in name and "RefCell<" in name and "Node<" in name


def query(prog):
    """stores and calls that could move, shorten or replace the slots of a buffer nodes already point into"""
    out, stats = [], {"functions": 0, "accesses": 0, "arithmetic": 0}
    for fn in prog.fns:
        if fn.crate != "trees" or not fn.body:
            continue
        stats["functions"] += 1
        defs = {}
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    defs.setdefault(s[1][0], []).append(s[2])

        def through_pointer(o, depth=0):
            """may the vector behind this reference be part of a buffer that nodes point into?"""
            if o[0] not in ("c", "m") or depth > 6:
                return True
            l, proj = o[1]
            if any(x[0] == "*" for x in proj):
                return True
            ds = defs.get(l, [])
            if len(ds) != 1:
                return True
            rv = ds[0]
            if rv[0] == "ref":
                pl = rv[1]
                if any(x[0] == "*" for x in pl[1]):
                    if len(pl[1]) == 1:      # a reborrow
                        return through_pointer(("c", [pl[0], []]), depth + 1)
                    return True
                return False
            if rv[0] == "use":
                return through_pointer(rv[1], depth + 1)
            return True
        for bi, b in enumerate(fn.blocks):
            for s in b["s"]:
                if s[0] != "=":
                    continue
                pl = s[1]
                if pl[1] and any(x[0] == "*" for x in pl[1]) and pl[1][-1][0] == "f" and len(pl[1][-1]) > 2 and is_buffer(prog.ty(pl[1][-1][2]).name):
                    out.append(("slots", "replaces the slots of a published buffer", "%s (%s)" % (fn.full, s[-1])))
                if s[2][0] == "bin" and s[2][1] == "Offset":
                    stats["arithmetic"] += 1
            t = b["t"]
            if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1] or not t[2]:
                continue
            cal = prog.fns[t[1][1]["fn"]]
            o = t[2][0]
            if o[0] not in ("c", "m") or o[1][1]:
                continue
            tn = prog.ty(fn.locals[o[1][0]]).name
            if not (tn.startswith("&mut ") and is_buffer(tn)):
                continue
            stats["accesses"] += 1
            it = cal.item or cal.path.split("::")[-1]
            where = "%s (bb%d)" % (fn.full, bi)
            if cal.path.startswith("std::mem::") and it in ("replace", "swap", "take") and through_pointer(o):
                out.append(("slots", "moves the slots of a published buffer away", where))
            if it in KEEPERS and "Vec" in cal.path and through_pointer(o):
                if it == "set_len":
                    a = t[2][1]
                    if a[0] == "k" and a[1].get("int") == "0":
                        continue        # every index is out of bounds from then on
                out.append(("slots", "%s on the slots of a published buffer" % it, where))
    return out, stats


def job(a):
    import mir
    dump, fname, kind, consistent = a
    try:
        prog = mir.Program(dump)
        H.set_layout(H.Layout(prog))
        if fname == "query":
            f, s = query(prog)
        else:
            f, s = run(prog, fname, kind, consistent)
        return a, f, s, None
    except Exception as e:
        import traceback
        return a, [], {}, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])


def check(ws, pid, tier):
    import multiprocessing
    dump = ws.dump_probes(ws.compile_crate())
    jobs = [(dump, "rb_tree", "tree", pid != "P14"), (dump, "rb_forest", "forest", pid != "P14")]
    if pid == "P14":
        jobs.append((dump, "query", None, None))
    with multiprocessing.Pool(3) as pool:
        res = pool.map(job, jobs, chunksize=1)
    cov = {"build_analyses": 0, "build_paths": 0, "build_panicking_paths": 0, "build_abstract_steps": 0, "build_loops": 0, "build_loop_invariants": 0}
    viol, fns, models = [], set(), set()
    for (_, fname, kind, cons), finds, s, err in res:
        if err:
            viol.append(("%s|analysis" % fname, "%s: analysis failed: %s" % (fname, err)))
            continue
        if fname == "query":
            cov["slot_query"] = s
        else:
            cov["build_analyses"] += 1
            cov["build_paths"] += s["paths"]
            cov["build_panicking_paths"] += s["panics"]
            cov["build_abstract_steps"] += s["steps"]
            cov["build_loops"] += s["loops"]
            cov["build_loop_invariants"] += s.get("invariants", 0)
            fns |= s["fns"]
            models |= s["models"]
        for rule, msg, where in sorted(set(finds)):
            viol.append(("%s|%s|%s" % (fname, rule, where), "%s: [%s] %s  at %s" % (fname, rule, msg, where)))
    cov["build_functions"] = sorted(x.replace("opq::Elem", "T") for x in fns)
    cov["build_std_models_used"] = sorted(models)
    return {"coverage": cov, "violations": viol, "names": [j[1] for j in jobs]}
