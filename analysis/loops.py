"""Loop heads: garbage collection of dead locals, folding of the heap, canonical form, generalisation to
inductive loop invariants and instance checks.  Also compression of event logs."""
from math import gcd
from core import *
import heap as H
from heap import rec, NP

MAXHIST = 14


def subst(v, m):
    """simultaneous substitution of atoms by Lins inside of any value"""
    if isinstance(v, Lin):
        if not v.t:
            return v
        out = Lin(v.c)
        ch = False
        for a, k in v.t:
            b = m.get(a)
            if b is None:
                b2 = subst_atom(a, m)
                if b2 is not a:
                    ch = True
                out = out + Lin(0, ((b2, k),))
            else:
                ch = True
                out = out + b.scale(k)
        return out if ch else v
    if isinstance(v, tuple):
        r = tuple(subst(x, m) for x in v)
        return r if any(x is not y for x, y in zip(r, v)) else v
    if isinstance(v, A):
        return A(v.v, tuple(subst(x, m) for x in v.f))
    if isinstance(v, P):
        return P(v.r, subst(v.p, m), subst(v.m, m) if v.m is not None else None)
    return v


def subst_atom(a, m):
    r = tuple(subst(x, m) if isinstance(x, (Lin, tuple)) else x for x in a)
    return r if any(x is not y for x, y in zip(r, a)) else a


class NoMatch(Exception):
    pass


def multiple(d, u):
    """d == k*u for an integer k?"""
    if not d.t and not d.c:
        return 0
    if d.t:
        x, k = d.t[0]
        l = dict(u.t).get(x, 0)
    else:
        k, l = d.c, u.c
    if not l or k % l:
        return None
    return k // l if d == u.scale(k // l) else None


def antiunify(a, b, tau, base="b", unit=None):
    """generalises two values of consecutive iterations; tau=0 gives b (or a when base=='a').
    With a unit U: tau=0 gives a and tau=U gives b."""
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a == b:
            return b
        if unit is not None:
            k = multiple(b - a, unit)
            if k is not None:
                return a + tau.scale(k)
            da, db = dict(a.t), dict(b.t)
            out = a
            d = b - a
            ra = [(x, k) for x, k in a.t if db.get(x) != k and len(x) > 2]
            rb = [(x, k) for x, k in b.t if da.get(x) != k and len(x) > 2]
            for x, k in ra:
                for y, l in rb:
                    if l == k and len(x) == len(y) and x[0] == y[0]:
                        try:
                            g = tuple(antiunify(p, q, tau, base, unit) for p, q in zip(x, y))
                        except NoMatch:
                            continue
                        rb.remove((y, l))
                        out = out + Lin(0, ((g, k),)) - Lin(0, ((x, k),))
                        d = d + Lin(0, ((x, k),)) - Lin(0, ((y, k),))
                        break
            k = multiple(d, unit)
            if k is None:
                raise NoMatch()
            return out + tau.scale(k)
        da, db = dict(a.t), dict(b.t)
        c = (b.c if base == "b" else a.c)
        out = Lin(c) + tau.scale(b.c - a.c)
        ra, rb = [], []
        for x, k in a.t:
            if db.get(x) == k:
                out = out + Lin(0, ((x, k),))
            else:
                ra.append((x, k))
        for x, k in b.t:
            if da.get(x) != k:
                rb.append((x, k))
        if len(ra) != len(rb):
            raise NoMatch()
        used = set()
        for x, k in ra:
            ok = False
            for j, (y, l) in enumerate(rb):
                if j in used or l != k or len(x) != len(y) or x[0] != y[0]:
                    continue
                try:
                    g = tuple(antiunify(p, q, tau, base) for p, q in zip(x, y))
                except NoMatch:
                    continue
                used.add(j)
                out = out + Lin(0, ((g, k),))
                ok = True
                break
            if not ok:
                raise NoMatch()
        return out
    if type(a) != type(b):
        raise NoMatch()
    if isinstance(a, tuple):
        if len(a) != len(b):
            raise NoMatch()
        return tuple(antiunify(x, y, tau, base, unit) for x, y in zip(a, b))
    if isinstance(a, A):
        if a.v != b.v or len(a.f) != len(b.f):
            raise NoMatch()
        return A(a.v, tuple(antiunify(x, y, tau, base, unit) for x, y in zip(a.f, b.f)))
    if a != b:
        raise NoMatch()
    return b


IOTA = ("iota",)


def eq_val(st, a, b):
    return a == b or H.norm_val(st, a) == H.norm_val(st, b)


def instantiate(t, n):
    return subst(t, {IOTA: n})


def compress(st, log):
    """run-length compression of event logs with affine indices: ("run", templates, count)"""
    out = []
    for e in log:
        if is_tag(e, "run"):
            e = ("run", H.norm_val(st, e[1]), st.norm(e[2]))
            if e[2] == ZERO:
                continue
        else:
            e = H.norm_val(st, e)
        out.append(e)
        again = True
        while again:
            again = False
            for p in (1, 2, 3, 4):
                # extend a run
                if len(out) > p and is_tag(out[-p - 1], "run") and len(out[-p - 1][1]) == p and \
                        not any(is_tag(x, "run") for x in out[-p:]):
                    r = out[-p - 1]
                    if all(H.norm_val(st, instantiate(t, r[2])) == x for t, x in zip(r[1], out[-p:])):
                        out[-p - 1:] = [("run", r[1], st.norm(r[2] + 1))]
                        again = True
                        break
                if len(out) >= 2 * p and not any(is_tag(x, "run") for x in out[-2 * p:]):
                    try:
                        t = tuple(antiunify(x, y, atom(IOTA), "a") for x, y in zip(out[-2 * p:-p], out[-p:]))
                    except NoMatch:
                        continue
                    if all(t[i] == out[-p + i] for i in range(p)) and p > 1:
                        continue
                    out[-2 * p:] = [("run", t, const(2))]
                    again = True
                    break
    return tuple(out)


def logs_equal(st, act, exp):
    """compares two event logs; returns None or a description of the difference"""
    a = list(compress(st, act))
    e = list(compress(st, exp))

    def expand(x):
        while x and is_tag(x[0], "run"):
            n = st.norm(x[0][2])
            if st.must_eq(n, ZERO):
                x.pop(0)
                continue
            return
    for _ in range(400):
        expand(a)
        expand(e)
        if not a and not e:
            return None
        if not a:
            return "missing %s" % (show_ev(e[0]),)
        if not e:
            return "unexpected %s" % (show_ev(a[0]),)
        ra, re_ = is_tag(a[0], "run"), is_tag(e[0], "run")
        if ra and re_ and len(a[0][1]) == len(e[0][1]) and H.norm_val(st, a[0][1]) == H.norm_val(st, e[0][1]):
            na, ne = st.norm(a[0][2]), st.norm(e[0][2])
            if st.must_eq(na, ne):
                a.pop(0)
                e.pop(0)
                continue
            if st.prove_ge0(ne - na):
                e[0] = ("run", subst(e[0][1], {IOTA: atom(IOTA) + na}), st.norm(ne - na))
                a.pop(0)
                continue
            if st.prove_ge0(na - ne):
                a[0] = ("run", subst(a[0][1], {IOTA: atom(IOTA) + ne}), st.norm(na - ne))
                e.pop(0)
                continue
            return "%s against %s" % (show_ev(a[0]), show_ev(e[0]))
        # peel one iteration of a run
        peeled = False
        for x in (a, e):
            if is_tag(x[0], "run"):
                n = st.norm(x[0][2])
                if not st.prove_ge0(n - 1):
                    return "%s against %s" % (show_ev(a[0]), show_ev(e[0]))
                t = x[0][1]
                first = [instantiate(y, ZERO) for y in t]
                rest = ("run", subst(t, {IOTA: atom(IOTA) + 1}), st.norm(n - 1))
                x[0:1] = first + [rest]
                peeled = True
        if peeled and (is_tag(a[0], "run") or is_tag(e[0], "run")):
            continue
        if H.norm_val(st, a[0]) != H.norm_val(st, e[0]):
            return "%s instead of %s" % (show_ev(a[0]), show_ev(e[0]))
        a.pop(0)
        e.pop(0)
    return "logs too long"


def show_ev(e):
    if is_tag(e, "run"):
        return "[%s]x%r" % ("; ".join(show_ev(x) for x in e[1]), e[2])
    return " ".join(show_v(x) for x in e)


def show_v(x):
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "e":
        return "%s[%r]" % (show_seq(x[1]), x[2])
    if isinstance(x, tuple):
        return "(" + " ".join(show_v(y) for y in x) + ")"
    return str(x)


# ------------------------------------------------------------------------------------------------ pointers in values
def ptrs(v, out):
    if isinstance(v, P):
        out.append(v)
    elif isinstance(v, A):
        for x in v.f:
            ptrs(x, out)
    elif isinstance(v, tuple) and v:
        if v[0] == "ref":
            out.append(v[1])
        elif v[0] in ("vec",):
            out.append(P(v))
        elif v[0] == "wk":
            out.append(P(("n", v[1])))
        else:
            for x in v:
                if isinstance(x, (P, A, tuple)):
                    ptrs(x, out)


# ------------------------------------------------------------------------------------------------ folding
class Folder:
    def __init__(self, ip, st):
        self.ip = ip
        self.st = st

    def refs(self):
        """who points to node-ish roots: root -> list of (kind, holder, field)"""
        st = self.st
        refs = {}
        seen = set()

        def add(p, kind, holder, field):
            r = st.root(p.r)
            refs.setdefault(r, []).append((kind, holder, field))
            if r[0] in ("o", "vec") and r not in seen and r in st.mem:
                seen.add(r)
                out = []
                v = st.mem[r]
                if r[0] == "vec":
                    for it in v:
                        ptrs(it[1:], out)
                else:
                    ptrs(v, out)
                for q in out:
                    add(q, "pin", r, None)
        for k, v in st.mem.items():
            if k[0] == "L":
                out = []
                ptrs(v, out)
                for p in out:
                    add(p, "pin", k, None)
        for p in st.ghost.get("pins", ()):
            add(p, "pin", "ghost", None)
        for k, v in st.mem.items():
            if k[0] == "n":
                if v["st"] != "live":
                    continue
                for fn in ("prev", "next", "head", "tail", "up"):
                    x = v["val"].f[H.L.F[fn]] if isinstance(v["val"], A) else None
                    if isinstance(x, A) and x.f:
                        add(x.f[0], "node", k, fn)
            elif k[0] == "s":
                for fn in ("up", "left", "right"):
                    x = v[fn]
                    if isinstance(x, A) and x.f:
                        add(x.f[0], "seg", k, fn)
            elif k[0] == "a":
                x = v["up"]
                if isinstance(x, A) and x.f:
                    add(x.f[0], "chain", k, "up")
        return refs

    def pristine_node(self, nid):
        """may node nid be put back into its sequence?"""
        st = self.st
        r = rec(st, nid)
        if r["st"] != "live" or r.get("new") or r.get("chain") or r.get("datum") or r["borrow"] != ZERO:
            return False
        if r.get("nofold"):
            return False
        S, i = r["src"]
        if r["handles"] != ZERO or r["wk"] != ZERO:
            return False
        rc = r["rc"]
        if isinstance(rc, Lazy) or st.norm(rc - ONE - H.kappa(st, S, i)) != ZERO:
            return False
        if r["hidden"]:
            return False
        up = H.getf(st, nid, "up")
        if isinstance(up, Lazy) or H.is_none(up):
            return False
        for f in ("prev", "next"):
            if isinstance(H.getf(st, nid, f), Lazy):
                return False
        dg, ds = H.size_of_rec(r)
        if st.norm(dg - atom(("D", S, i))) != ZERO or st.norm(ds - st.cnt(S, i) + 1) != ZERO:
            return False
        d = H.getf(st, nid, "data")
        if not isinstance(d, Lazy):
            bads = []
            H.check_datum(st, nid, lambda a, b: bads.append(b))
            if bads:
                return False
        if H.kids_pristine(st, nid):
            return r["kids"] == "lazy"
        hd, tl = H.getf(st, nid, "head"), H.getf(st, nid, "tail")
        if isinstance(hd, Lazy) or isinstance(tl, Lazy):
            return False
        if H.is_none(hd) and H.is_none(tl):
            return st.deg(S, i) == ZERO
        if H.is_none(hd) or H.is_none(tl):
            return False
        h, t = st.nptr(hd.f[0]).r, st.nptr(tl.f[0]).r
        if h[0] == "f" and t == ("l", h[1]):
            sg = st.mem.get(("s", h[1]))
            if sg and st.norm_seq(sg["S"]) == st.norm_seq(("k", S, i)) and st.norm(sg["lo"]) == ZERO and \
                    st.norm(sg["hi"] - st.deg(S, i)) == ZERO and H.is_none(sg["left"]) and H.is_none(sg["right"]) and \
                    H.opt_ptr(sg["up"]) is not None and st.nptr(sg["up"].f[0]).r == ("n", nid):
                return ("seg", h[1])
        return False

    def run(self):
        ch = True
        n = 0
        while ch and n < 200:
            ch = self.step()
            n += 1

    def step(self):
        st = self.st
        refs = self.refs()
        # nodes into one-element segments
        for k in list(st.mem):
            if k[0] != "n":
                continue
            nid = k[1]
            rs = refs.get(k, [])
            if st.mem[k].get("chain"):
                if self.fold_chain(nid, rs):
                    return True
                continue
            if any(x[0] == "pin" for x in rs):
                continue
            pr = self.pristine_node(nid)
            if not pr:
                continue
            sub = pr[1] if pr is not True else None
            if sub is not None:
                bad = False
                for e in (("f", sub), ("l", sub)):
                    for x in refs.get(e, []):
                        if x[1] != k:
                            bad = True
                if bad:
                    continue
            ok = True
            for kind, holder, field in rs:
                if field == "up" and not (kind == "seg" and holder == ("s", sub)):
                    ok = False
            if not ok:
                continue
            self.node_to_seg(nid, rs, sub)
            return True
        # merge neighbouring segments
        for k in list(st.mem):
            if k[0] != "s":
                continue
            a = st.mem[k]
            q = H.opt_ptr(a["right"])
            if q is None:
                continue
            r = st.nptr(q).r
            if r[0] != "f":
                continue
            kb = ("s", r[1])
            b = st.mem.get(kb)
            if b is None or kb == k or st.norm_seq(b["S"]) != st.norm_seq(a["S"]) or st.norm(a["hi"] - b["lo"]) != ZERO:
                continue
            if not H.same(st, a["up"], b["up"]):
                continue
            bl = H.opt_ptr(b["left"])
            if bl is None or st.nptr(bl).r != ("l", k[1]):
                continue
            ra = [x for x in refs.get(("l", k[1]), []) if x[1] != kb]
            rb = [x for x in refs.get(("f", r[1]), []) if x[1] != k]
            if ra or rb:
                continue
            m = H.new_seg(st, a["S"], a["lo"], b["hi"], a["up"], a["left"], b["right"])
            st.rm(k)
            st.rm(kb)
            H.alias(st, ("f", k[1]), ("f", m))
            H.alias(st, ("l", r[1]), ("l", m))
            return True
        return False

    def unslot(self, nid):
        st = self.st
        r = rec(st, nid)
        k = r["kind"]
        if k and k[0] == "pl":
            pl = st.mem[("v", k[1])]
            H.set_pile(st, k[1], rest=st.norm(pl["rest"] + r["rc"]),
                       slots=tuple(x for x in pl["slots"] if x[1] != nid))

    def node_to_seg(self, nid, rs, sub):
        st = self.st
        r = rec(st, nid)
        S, i = r["src"]
        sid = H.new_seg(st, S, st.norm(i), st.norm(i + 1), H.getf(st, nid, "up"), H.getf(st, nid, "prev"), H.getf(st, nid, "next"))
        for kind, holder, field in rs:
            if holder == ("s", sub):
                continue
            to = H.first(sid) if field in ("next", "head", "right") else H.last(sid)
            if kind == "node":
                H.setf(st, holder[1], **{field: SOME(to)})
            elif kind == "seg":
                d = dict(st.mem[holder])
                d[field] = SOME(to)
                st.put(holder, d)
        self.unslot(nid)
        st.rm(("n", nid))
        if sub is not None:
            st.rm(("s", sub))

    def fold_chain(self, nid, rs):
        """ancestor nid only changed in its descendant count: put it into the chain below it"""
        st = self.st
        r = rec(st, nid)
        if r["st"] != "live" or r["borrow"] != ZERO or r["hidden"] is not False or r.get("datum"):
            return False
        for f in ("head", "tail", "prev", "next"):
            if not isinstance(H.getf(st, nid, f), Lazy):
                return False
        if not H.is_tag(r["kids"], "mid") or r["handles"] != ZERO or r["wk"] != ZERO:
            return False
        up = H.getf(st, nid, "up")
        if isinstance(up, Lazy) or H.is_none(up):
            return False
        if any(x[0] == "pin" for x in rs) or len(rs) != 1 or rs[0][2] != "up":
            return False
        kind, holder, _ = rs[0]
        C, i = r["src"]
        dg, ds = H.size_of_rec(r)
        if st.norm(dg - r["deg0"]) != ZERO:
            return False
        delta = st.norm(ds - r["desc0"])
        if not isinstance(H.getf(st, nid, "data"), Lazy):
            bads = []
            H.check_datum(st, nid, lambda a, b: bads.append(b))
            if bads:
                return False
        # the node above must know its child as the top of the chain
        if kind == "chain":
            a = st.mem[holder]
            if a["C"] != C or st.norm(a["hi"] - i) != ZERO or st.norm(a["delta"] - delta) != ZERO:
                return False
            d = dict(a)
            d["hi"] = st.norm(i + 1)
            d["up"] = up
            st.put(holder, d)
            H.alias(st, ("n", nid), holder)
            aid = holder
        else:
            aid = ("a", st.fresh("a"))
            child = holder if kind == "node" else ("n", "?")
            if kind == "seg":
                return False
            st.put(aid, {"C": C, "lo": i, "hi": st.norm(i + 1), "delta": delta, "child": child, "up": up})
            H.setf(st, holder[1], up=SOME(P(aid, NP)))
        self.unslot(nid)
        st.rm(("n", nid))
        top = st.root(up.f[0].r)
        if top[0] == "n":
            H.upd(st, top[1], kids=("mid", aid) if H.is_tag(rec(st, top[1])["kids"], "mid") else rec(st, top[1])["kids"])
        return True


# ------------------------------------------------------------------------------------------------ canonical form
class Canon:
    """walks everything reachable in a fixed order; collects the Lin slots or replaces them"""

    def __init__(self, st, repl=None):
        self.st = st
        self.slots = []
        self.repl = iter(repl) if repl is not None else None
        self.num = {}
        self.queue = []
        self.piles = []

    def lin(self, l):
        l = self.st.norm(l)
        self.slots.append(l)
        if self.repl is not None:
            return "#", next(self.repl)
        return "#", l

    def root(self, r):
        st = self.st
        r = st.root(r)
        key = r if r[0] not in ("f", "l") else ("s", r[1])
        if r[0] in ("L", "c", "str", "static", "dangling", "null", "fmt", "u"):
            return (r[0],) + tuple(x if not isinstance(x, Lin) else "lin" for x in r[1:]), r
        if r[0] == "pb":
            key = ("v", r[1])
        if key not in self.num:
            self.num[key] = len(self.num)
            self.queue.append(key)
        return (r[0], self.num[key]), r

    def enc(self, v):
        """-> (skeleton, rebuilt value)"""
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, A):
            es = [self.enc(x) for x in v.f]
            return ("A", v.v) + tuple(e[0] for e in es), (v if self.repl is None else A(v.v, tuple(e[1] for e in es)))
        if isinstance(v, P):
            rs, r = self.root(v.r)
            ps, p = self.enc(v.p)
            ms, m = self.enc(v.m) if v.m is not None else (None, None)
            return ("P", rs, ps, ms), (v if self.repl is None else P(r, p, m))
        if isinstance(v, Lazy):
            return ("lazy", v.k), v
        if isinstance(v, tuple):
            if v and v[0] == "vec" and len(v) == 2:
                rs, r = self.root(v)
                return ("vecref", rs), v
            if v and v[0] == "ref":
                ts, t = self.enc(v[1])
                rs, r = self.root(("n", v[2]))
                return ("ref", ts, rs, v[3]), (v if self.repl is None else ("ref", t, v[2], v[3]))
            if v and v[0] == "wk":
                rs, r = self.root(("n", v[1]))
                return ("wk", rs), v
            if v and v[0] == "pbuf":
                rs, r = self.root(("v", v[1]))
                return ("pbuf", rs), v
            if v and v[0] == "fn":
                return v, v
            es = [self.enc(x) for x in v]
            return tuple(e[0] for e in es), (v if self.repl is None else tuple(e[1] for e in es))
        return v, v

    def record(self, key):
        st = self.st
        k = key[0]
        r = st.mem.get(key)
        if r is None:
            return ("gone", k)
        if k == "n":
            sk = ["n"]
            nr = dict(r)
            for f in ("src", "kind", "val", "borrow", "rc", "deg0", "desc0", "handles", "wk", "kids", "datum"):
                if f not in r:
                    continue
                x = r[f]
                if f == "kind" and is_tag(x, "pl"):
                    rs, _ = self.root(("v", x[1]))
                    ls, l = self.lin(x[2])
                    sk.append(("pl", rs))
                    nr[f] = ("pl", x[1], l)
                    continue
                if f == "kids" and is_tag(x, "mid"):
                    rs, rr = self.root(x[1])
                    sk.append(("mid", rs))
                    continue
                if f == "val" and r["st"] != "live":
                    continue
                s, nv = self.enc(x)
                sk.append((f, s))
                nr[f] = nv
            sk += [(f, r.get(f)) for f in ("st", "hidden", "dead", "listed", "new", "chain", "nofold")]
            if self.repl is not None:
                st.put(key, nr)
            return tuple(sk)
        if k == "s":
            nr = dict(r)
            sk = ["s"]
            for f in ("S", "lo", "hi", "up", "left", "right"):
                s, nv = self.enc(r[f])
                sk.append(s)
                nr[f] = nv
            if self.repl is not None:
                st.put(key, nr)
            return tuple(sk)
        if k == "a":
            nr = dict(r)
            sk = ["a"]
            for f in ("C", "lo", "hi", "delta", "up"):
                s, nv = self.enc(r[f])
                sk.append(s)
                nr[f] = nv
            if self.repl is not None:
                st.put(key, nr)
            return tuple(sk)
        if k == "v":
            nr = dict(r)
            sk = ["v"]
            # the buffer's count is written as its distance from what is known to be counted in it
            known = r["rest"] + r["wk"]
            for i, nid in r["slots"]:
                c = rec(st, nid)["rc"]
                if not isinstance(c, Lazy):
                    known = known + c
            fs = list(r["val"].f)
            ri = H.L.VF["ref_cnt"]
            ref = fs[ri]
            if isinstance(ref, Lin):
                fs[ri] = st.norm(ref - known)
            s, nval = self.enc(A(r["val"].v, tuple(fs)))
            sk.append(s)
            for f in ("rest", "len", "wk"):
                s, nv = self.enc(r[f])
                sk.append(s)
                nr[f] = nv
            if self.repl is not None:
                nr["val"] = nval
                if isinstance(ref, Lin):
                    # the nodes' own counts are replaced later on: completed by fix()
                    self.piles.append(key)
            slots = []
            for i, nid in r["slots"]:
                s, nv = self.lin(i)
                rs, _ = self.root(("n", nid))
                sk.append(rs)
                slots.append((nv, nid))
            nr["slots"] = tuple(slots)
            for f in sorted(r):
                if f not in ("val", "rest", "len", "wk", "slots"):
                    x = r[f]
                    if callable(x):
                        sk.append(f)
                        continue
                    s, nv = self.enc(x)
                    sk.append((f, s))
                    nr[f] = nv
            if self.repl is not None:
                st.put(key, nr)
            return tuple(sk)
        s, nv = self.enc(r)
        if self.repl is not None:
            st.put(key, nv)
        return (k, s)

    def run(self):
        st = self.st
        sk = []
        frames = []
        f = st.frame
        while f is not None:
            frames.append(f)
            f = f.parent
        frames.reverse()
        loc = {}
        for k in st.mem:
            if k[0] == "L":
                loc.setdefault(k[1], []).append(k)
        for f in frames:
            sk.append((f.fn.id, f.bb))
            for k in sorted(loc.get(f.fid, []), key=lambda x: x[2]):
                v = st.mem[k]
                if v is UNINIT:
                    continue
                s, nv = self.enc(v)
                sk.append((k[2], s))
                if self.repl is not None:
                    st.put(k, nv)
        for p in st.ghost.get("pins", ()):
            sk.append(self.enc(p)[0])
        s, nl = self.enc(st.log)
        sk.append(s)
        if self.repl is not None:
            st.log = nl
        g = tuple(sorted((k, v) for k, v in st.ghost.items() if isinstance(v, (int, str, bool, type(None)))))
        sk.append(g)
        for gk in sorted(k for k, v in st.ghost.items() if isinstance(v, (Lin, tuple)) and k != "pins"):
            s, nv = self.enc(st.ghost[gk])
            sk.append((gk, s))
            if self.repl is not None:
                st.ghost = dict(st.ghost)
                st.ghost[gk] = nv
        qi = 0
        while qi < len(self.queue):
            sk.append(self.record(self.queue[qi]))
            qi += 1
        # what is still there but not reachable from the program's variables
        for k in list(st.mem):
            if k in self.num or k[0] not in ("n", "s", "v", "a"):
                continue
            r = st.mem.get(k)
            if r is None:
                continue
            if k[0] == "n" and r.get("limbo"):
                continue
            if k[0] == "v" and self.repl is None and not r["slots"]:
                if r["st"] != "live" or not r.get("fresh") and st.must_eq(H.pile_ref(st, k[1]), r["rest"] + r["wk"]) and \
                        st.prove_ge0(H.pile_ref(st, k[1]) - 1):
                    st.rm(k)
                    continue
            self.num[k] = len(self.num)
            self.queue.append(k)
            sk.append(("lost", k[0]))
            while qi < len(self.queue):
                sk.append(self.record(self.queue[qi]))
                qi += 1
        for key in self.piles:
            r = st.mem[key]
            known = r["rest"] + r["wk"]
            for i, nid in r["slots"]:
                c = rec(st, nid)["rc"]
                if not isinstance(c, Lazy):
                    known = known + c
            H.set_pile(st, key[1], ref=st.norm(H.pile_ref(st, key[1]) + known))
        return tuple(sk)


class Entry:
    __slots__ = ("skel", "slots", "facts", "pats", "node")

    def __init__(self, skel, slots, facts, pats):
        self.skel = skel
        self.slots = slots
        self.facts = facts
        self.pats = pats


def shifted(b, unit, a):
    """the value one iteration earlier: every index is smaller by the unit"""
    out = Lin(b.c)
    for x, k in b.t:
        if len(x) == 3 and isinstance(x[2], Lin) and a.get(x) != k:
            x = (x[0], x[1], x[2] - unit)
        out = out + Lin(0, ((x, k),))
    return out


def gone(st, v, k):
    """pointers to the released node k, held by a vector, become dangling ones"""
    if isinstance(v, P):
        return P(("gone",)) if st.root(v.r) == k else v
    if isinstance(v, A):
        return A(v.v, tuple(gone(st, x, k) for x in v.f))
    if isinstance(v, tuple):
        return tuple(gone(st, x, k) for x in v)
    return v


class Loops:
    def __init__(self):
        self.count = 0
        self.gens = 0
        self.seen = {}          # states that are explored anyway -> their node
        self.edges = {0: set()}  # node -> nodes reached next; 0 is the entry
        self.exits = set()      # nodes from which some path ends
        self.places = {}
        self.glob = {}
        self.names0 = None

    def settle(self, ip, st):
        """records nobody can reach any more: released nodes become events, buffers are accounted for"""
        pins = None
        for k in list(st.mem):
            if k[0] != "n":
                continue
            r = st.mem[k]
            S, i = r["src"]
            if r.get("limbo") or (r["st"] != "live" and (r.get("gone_by") or isinstance(S, tuple))):
                if pins is None:
                    pins = Folder(ip, st).refs()
                if pins.get(k):
                    if r["st"] == "live" or not all(x[0] == "pin" and x[1][0] == "vec" for x in pins[k]):
                        continue
                    for kk in {x[1] for x in pins[k]}:
                        st.put(kk, tuple(gone(st, it, k) for it in st.mem[kk]))
                if r["st"] != "live" and not r.get("gone_by") and not r.get("limbo") and not r.get("new"):
                    if not is_tag(S, "k") or not r["dead"] and not datum_gone(st, k[1]):
                        continue
                    st.event("shell", st.norm_seq(S), st.norm(i))
                if is_tag(r["kind"], "pl") and ("v", r["kind"][1]) in st.mem:
                    if not r.get("limbo"):
                        pl = st.mem[("v", r["kind"][1])]
                        if any(x[1] == k[1] for x in pl["slots"]):
                            rc = r["rc"]
                            if isinstance(rc, Lazy) or st.norm(rc) != ZERO:
                                continue
                            H.set_pile(st, r["kind"][1], slots=tuple(x for x in pl["slots"] if x[1] != k[1]))
                st.rm(k)

    def gc_facts(self, st, slots):
        """facts about symbols that are no longer used"""
        live = set()
        for x in slots:
            all_atoms(x, live)
        for k, r in st.mem.items():
            if k[0] == "n" and r.get("midlen"):
                all_atoms(r["midlen"], live)
            if k[0] == "v":
                all_atoms((H.pile_ref(st, k[1]), r["rest"], r["len"] if isinstance(r["len"], Lin) else ZERO), live)
        out = []
        for x in st.facts:
            x = st.norm(x)
            if not x.t or any((is_temp(a) or a[0] == "X") and a not in live for a in all_atoms(x)):
                continue
            if x not in out:
                out.append(x)
        st.facts = tuple(out)

    # -------------------------------------------------------- entry point
    def arrive(self, ip, st, work):
        if self.names0 is None:
            self.names0 = st.names
        self.gc(st)
        Folder(ip, st).run()
        self.settle(ip, st)
        st.log = compress(st, st.log)
        c = Canon(st)
        skel = c.run()
        slots = tuple(c.slots)
        self.gc_facts(st, slots)
        f = st.frame
        hist = list(f.hist)
        for i, (bb, es) in enumerate(hist):
            if bb == f.bb:
                hist = hist[:i + 1]
                break
        else:
            hist.append((f.bb, ()))
        bb, es = hist[-1]
        facts = tuple(dict.fromkeys(x for x in (st.norm(x) for x in st.facts) if x.t))
        key = (f.bb, skel, slots, frozenset(facts), tuple(c.num), tuple(sorted((repr(k), repr(v)) for k, v in st.decided.items())) if isinstance(st.decided, dict) else st.decided)
        if key in self.seen:
            return self.stop(st, self.seen[key])
        node = len(self.edges)
        weak = None
        for e in es:
            if e.skel != skel or e.pats is None:
                continue
            res = self.instance(st, e, slots)
            if res == "yes":
                self.seen[key] = e.node
                return self.stop(st, e.node)
            if res is not None:
                weak = (e, res)
        for e in es:
            if e.pats is None and e.skel == skel and all(st.norm(x - y) == ZERO for x, y in zip(e.slots, slots)):
                self.seen[key] = e.node
                return self.stop(st, e.node)
        gk = (len(hist), bb, skel)
        for g in self.glob.get(gk, ()):
            if self.covers(st, g, slots):
                self.seen[key] = g[0].node
                return self.stop(st, g[0].node)
        if len(es) > MAXHIST:
            raise Inconclusive("no invariant found for the loop in %s" % ip.where(st))
        new = None
        if weak is not None:
            e, bad = weak
            keep = tuple(x for x in e.facts if x not in bad)
            new = self.refresh(st, e, keep, skel)
        else:
            prev = [e for e in es if e.skel == skel]
            if prev:
                new = self.generalise(ip, st, prev[-1], skel, slots, facts)
        if new is None:
            new = Entry(skel, slots, facts, None)
        new.node = node
        self.seen[key] = node
        self.edges[node] = set()
        self.places[node] = ip.where(st)
        self.edges[st.lh].add(node)
        st.lh = node
        hist[-1] = (bb, es + (new,))
        self.remember(st, gk, new)
        st.frame = st.frame.marked(tuple(hist))
        self.count += 1
        return "go"

    def stop(self, st, node):
        self.edges[st.lh].add(node)
        return "stop"

    def hangs(self):
        """loop heads reached from which no path ever ends although the loop goes round"""
        back = {n: set() for n in self.edges}
        for n, out in self.edges.items():
            for m in out:
                back[m].add(n)
        ok, work = set(), list(self.exits)
        while work:
            n = work.pop()
            if n not in ok:
                ok.add(n)
                work.extend(back[n])
        bad = {n: {m for m in out if m not in ok} for n, out in self.edges.items() if n not in ok}
        # what cannot go round is a dead end of the analysis, not a loop
        while True:
            dead = [n for n, out in bad.items() if not out]
            if not dead:
                break
            for n in dead:
                del bad[n]
            for out in bad.values():
                out.difference_update(dead)
        return sorted({self.places[n] for n in bad if n})

    def gc(self, st):
        f = st.frame
        first_ = True
        loc = {}
        for k in st.mem:
            if k[0] == "L":
                loc.setdefault(k[1], []).append(k)
        while f is not None:
            live, taken = f.fn.live
            if first_:
                ok = live[f.bb] | taken
            else:
                t = f.fn.blocks[f.bb]["t"]
                ok = set(taken)
                if f.callbb < len(f.fn.blocks) or True:
                    for b in f.fn.blocks:
                        if b["t"][0] == "drop" and not any(x[0] == "*" for x in b["t"][1][1]):
                            ok.add(b["t"][1][0])
                for s in f.fn.succ(f.bb):
                    ok |= live[s]
                u = t[5] if t[0] == "call" else t[3] if t[0] == "drop" else None
                if u is not None and u >= 0:
                    ok |= live[u]
                if callee.ret is not None and callee.ret >= 0:
                    ok |= live[callee.ret]
            callee = f
            for k in loc.get(f.fid, []):
                if k[2] not in ok and k[2] != 0:
                    st.rm(k)
            first_ = False
            f = f.parent

    # -------------------------------------------------------- generalisation
    def generalise(self, ip, st, prev, skel, slots, facts):
        tau = atom(("s", st.fresh("tau")))
        pats = [tau.t[0][0]]
        out = []
        memo = {}
        old = [st.norm(x) for x in prev.slots]
        if any(x.t and not y.t for x, y in zip(prev.slots, old)):
            # a case split of this iteration fixed a quantity: the iterations are not comparable yet
            return None
        # quantities that change irregularly become arbitrary ones; constant distances between them are kept
        irregular = []
        unit = self.unit(st, old, slots)
        base = "a"
        if isinstance(unit, tuple):
            unit, low = unit
            tau = tau - low
        for a, b in zip(old, slots):
            if a != b:
                try:
                    antiunify(a, b, tau, base, unit)
                except NoMatch:
                    # facts of the earlier visit may have simplified a value that follows the pattern
                    a2 = shifted(b, unit if isinstance(unit, Lin) else ONE, dict(a.t))
                    if a2 != b and st.norm(a2) == a:
                        try:
                            memo[(a, b)] = antiunify(a2, b, tau, base, unit)
                            continue
                        except NoMatch:
                            pass
                    for gr in irregular:
                        if (a - gr[0][0]).is_const() and (a - gr[0][0]) == (b - gr[0][1]):
                            gr.append((a, b))
                            break
                    else:
                        irregular.append([(a, b)])
        for gr in irregular:
            w = atom(("s", st.fresh("any")))
            pats.append(w.t[0][0])
            low = min((a - gr[0][0]).c for a, b in gr)
            for a, b in gr:
                memo[(a, b)] = w + ((a - gr[0][0]).c - low)
        for a, b in zip(old, slots):
            if a == b:
                out.append(b)
                continue
            if (a, b) in memo:
                out.append(memo[(a, b)])
                continue
            g = antiunify(a, b, tau, base, unit)
            memo[(a, b)] = g
            out.append(g)
        stride = max([abs(dict(x.t).get(pats[0], 0)) for x in out] or [1])
        gf, drop = [], []
        pf = [y for y in (st.norm(x) for x in prev.facts) if y.t]
        for x in facts:
            if not x.t:
                continue
            for y in pf:
                if x == y:
                    continue
                try:
                    g = antiunify(y, x, tau, base, unit)
                except NoMatch:
                    continue
                if abs(dict(g.t).get(pats[0], 0)) <= stride and any(z == pats[0] for z in all_atoms(g)):
                    drop.append(x)
                    if g not in gf:
                        gf.append(g)
        st.facts = tuple(x for x in st.facts if st.norm(x) not in drop)
        return self.install(st, skel, tuple(out), tuple(gf), tuple(pats))

    def remember(self, st, gk, e):
        """an explored state may cover states of other paths: everything it assumes is recorded with it"""
        facts = tuple(x for x in (st.norm(x) for x in st.facts) if x.t)
        pats = [a for a in all_atoms(e.slots) if self.own(a)]
        g = Entry(e.skel, e.slots, facts, tuple(pats))
        g.node = e.node
        self.glob.setdefault(gk, []).append((g, dict(st.sub)))

    def own(self, a):
        """a symbol made up while exploring (not one of the probe's)"""
        if not is_temp(a):
            return False
        d = a[1]
        i = len(d)
        while d[i - 1].isdigit():
            i -= 1
        return i < len(d) and int(d[i:]) > self.names0

    def covers(self, st, g, slots):
        e, sub = g
        m = {}
        if self.instance(st, e, slots, m) != "yes":
            return False
        live = all_atoms(e.slots)
        for f in e.facts:
            all_atoms(f, live)
        for a, l in sub.items():
            if self.own(a) and a not in live:
                continue
            if any(self.own(x) and x not in m for x in all_atoms(l) | all_atoms(Lin(0, ((a, 1),)))):
                return False
            if not st.must_eq(subst(Lin(0, ((a, 1),)), m), subst(l, m)):
                return False
        return True

    def unit(self, st, old, slots):
        """the common distance of two visits that are not one iteration apart, None for plain neighbours"""
        cs = []
        for a, b in zip(old, slots):
            if a == b:
                continue
            d = b - a
            if not d.t:
                cs.append(abs(d.c))
                continue
            if all(is_param(x) for x, _ in d.t) and all(is_param(x) for x, _ in a.t):
                # the slot becomes the parameter; everything else is measured by it
                for c in sorted({min(a.c, b.c), 0}, reverse=True):
                    if st.prove_ge0(a - c) and st.prove_ge0(b - c):
                        return d, a - c
        if cs:
            g = 0
            for c in cs:
                g = gcd(g, c)
            if g > 1:
                return const(g)
        return ONE

    def refresh(self, st, e, keep, skel):
        """weaken a generalised entry: fewer facts"""
        m = {}
        pats = []
        for a in e.pats:
            w = atom(("s", st.fresh("tau")))
            pats.append(w.t[0][0])
            m[a] = w
        slots = tuple(subst(x, m) for x in e.slots)
        return self.install(st, skel, slots, tuple(subst(x, m) for x in keep), tuple(pats))

    def install(self, st, skel, slots, gfacts, pats):
        Canon(st, slots).run()
        st.facts = strongest(st.facts + tuple(gfacts))
        # a segment stands for at least one node, whatever its bounds were generalised to
        for k, sg in st.mem.items():
            if k[0] == "s" and not st.prove_ge0(sg["hi"] - sg["lo"] - 1):
                st.assume_ge0(sg["hi"] - sg["lo"] - 1)
        self.gens += 1
        return Entry(skel, slots, gfacts, pats)

    def instance(self, st, e, slots, m=None):
        """"yes", None (no instance) or the list of facts of e that cannot be proved"""
        if m is None:
            m = {}
        pats = set(e.pats)
        for pat, v in zip(e.slots, slots):
            if len(pat.t) == 1 and pat.c == 0 and pat.t[0][0] in pats and pat.t[0][1] == 1 and pat.t[0][0] not in m:
                m[pat.t[0][0]] = v
        for pat, v in zip(e.slots, slots):
            tops = [(a, k) for a, k in pat.t if a in pats and a not in m]
            if len(tops) != 1 or len([a for a in all_atoms(pat) if a in pats]) != 1:
                continue
            a, k = tops[0]
            d = st.norm(v - (pat - Lin(0, ((a, k),))))
            if k < 0:
                d, k = -d, -k
            if d.c % k or any(x % k for _, x in d.t):
                return None
            m[a] = Lin(d.c // k, tuple((x, y // k) for x, y in d.t))
        # a parameter that occurs only inside of indices
        for pat, v in zip(e.slots, slots):
            if all(a in m for a in pats):
                break
            b = bind_inside(pat, v, pats, m)
            if b:
                m.update(b)
        for a in pats:
            if a not in m:
                return None
        for pat, v in zip(e.slots, slots):
            x = subst(pat, m)
            if st.norm(x - v) != ZERO and not st.must_eq(x, v):
                return None
        for a in pats:
            if not st.prove_ge0(m[a]):
                return None
        bad = [x for x in e.facts if not st.prove_ge0(subst(x, m))]
        return bad or "yes"


def is_param(a):
    return a[0] == "s" and isinstance(a[1], str) and a[1].startswith(("tau", "any"))


def is_temp(a):
    return a[0] == "s" and isinstance(a[1], str) and a[1].startswith(("tau", "any", "rest", "len"))


def datum_gone(st, nid):
    d = H.norm_val(st, ("e",) + rec(st, nid)["src"])
    for e in st.log:
        if d in e:
            return True
        if is_tag(e, "run"):
            return True
    return rec(st, nid)["hidden"] is True


def bind_inside(pat, v, pats, m):
    for a, k in pat.t:
        if len(a) == 3 and isinstance(a[2], Lin):
            for b, l in v.t:
                if l == k and len(b) == 3 and b[0] == a[0]:
                    for x, kk in a[2].t:
                        if x in pats and x not in m and kk == 1:
                            d = b[2] - (a[2] - atom(x))
                            return {x: d}
    return None


def all_atoms(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, Lin):
        for a, _ in v.t:
            out.add(a)
            for x in a:
                if isinstance(x, (Lin, tuple)):
                    all_atoms(x, out)
    elif isinstance(v, tuple):
        for x in v:
            all_atoms(x, out)
    return out
