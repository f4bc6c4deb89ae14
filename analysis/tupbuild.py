"""Building a tree or forest from a tuple of unknown nesting.

Level l of the tree has its first node at number B(l) of the breadth-first order: B(0) = 0, B(1) = 1, B(l+1) - B(l) is
the number of nodes at level l, and B(height) = N is the number of all nodes.  What descendants(), height(), SIZE and
preorder_with_size_hint() of a tuple do is P17; here they are opaque: descendants(k) = B(k+2) - B(k+1), and a preorder
walk is any sequence of visits.

During the walk, O(l) = B(l) + (nodes of level l that are complete).  With d branches open, the slots O(0), .., O(d-1)
hold the open nodes, the next visit is at level d, and its node belongs into slot O(d).  The analysis
  1. interprets from_tuple up to the walk: the buffer is made of N empty nodes, the per-level numbers are B(0), B(1), ..;
  2. interprets the callback once for every kind of visit from an arbitrary such state: it must put the datum, size,
     owner and links of exactly one node into slot O(d), append it to the children of the node in slot O(d-1), and
     change nothing else; the captured numbers must be related to d and O as before (relations by candidate elimination);
  3. interprets the rest of from_tuple with the filled buffer."""
import heap as H
import rebuild
from core import *
from heap import is_none
from interp import Interp
from loops import IOTA, subst
from models import Models, vecs_in

MAGIC_D, MAGIC_Z = 0x5EED_0000_0010, 0x5EED_0000_1000
HT = sym("height")
SD = sym("degree")


def B(l):
    return atom(("BB", None, l))


def O(l):
    return atom(("OO", None, l))


def N():
    return B(HT)


def const_of(st, c):
    """the numbers of SIZE, and what is computed from them before the program runs"""
    if abs(c - MAGIC_D) < 16:
        return SD + (c - MAGIC_D)
    if abs(c - MAGIC_Z) < 16:
        return N() - 1 + (c - MAGIC_Z)
    return None


def merge_numbers(st, items):
    """a vector that starts with B(0), B(1), .., B(m-1) starts with one run"""
    iota = atom(IOTA)
    n, k = ZERO, 0
    while k < len(items):
        it = items[k]
        one = it[0] == "e" or it[0] == "r" and st.must_eq(it[2], ONE)
        if k == 0 and it[0] == "r" and it[1] == B(iota):
            n = st.norm(it[2])
        elif one and isinstance(it[1], Lin) and IOTA not in [a for a, _ in it[1].t] and (st.norm(it[1] - B(n)) == ZERO or st.must_eq(it[1], B(n))):
            n = st.norm(n + 1)
        else:
            break
        k += 1
    return (("r", B(iota), n),) + tuple(items[k:]) if k else items


def new_buffer(st, pid, items):
    for it in items:
        bad = rebuild.default_node(st, it[1])
        if bad:
            raise Violation("buffer", "a slot of a new node buffer is not an empty node: %s" % bad)
    H.set_pile(st, pid, table=slot)


def slot(ip, st, pid, i):
    ph = st.ghost["tup"]["phase"]
    if ph != "start" or not st.must_eq(i, ZERO):
        raise Violation("slot", "access to slot %r, which is neither the next one to fill nor that of the open branch or its last child" % (i,))
    put_node(st, pid, "root", ZERO, empty())
    return P(("n", "root"), ())


def empty():
    L = H.L
    return L.mk_node(prev=NONE, next=NONE, head=NONE, tail=NONE, up=NONE, size=L.mk_size(ZERO, ZERO), data=L.mk_data("None", None, None))


def opq(x):
    return ("opq", x)


def filled(pid, name, hidden=False, size=None, **kw):
    L = H.L
    own = P(("v", pid), ())
    data = L.mk_data("PiledNone", None, own) if hidden else L.mk_data("Piled", ("datum", name), own)
    d = {k: opq((name, k)) for k in ("prev", "next", "head", "tail", "up")}
    d.update(kw)
    return L.mk_node(size=size or L.mk_size(sym("sd_" + name), sym("sz_" + name)), data=data, **d)


def put_node(st, pid, name, i, v):
    st.put(("n", name), {"val": v, "orig": v, "bidx": i, "pid": pid, "filled": True, "par": None, "kind": ("pl", pid), "borrow": ZERO, "rc": ONE,
                         "weak": ZERO, "src": (("new", name), ZERO), "st": "live", "hidden": False, "kids": "exp", "deg0": ZERO, "desc0": ZERO,
                         "dead": False, "handles": ZERO, "wk": ZERO, "listed": None})
    H.set_pile(st, pid, slots=st.mem[("v", pid)]["slots"] + ((i, name),))


def link(name):
    return SOME(H.nid_ptr(name))


# ------------------------------------------------------------------ the captured variables
def leaves(ip, st, v, key=(), out=None, seen=None):
    """-> {key: (how to store it, value)} of the numbers reachable from the callback"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, A):
        for i, x in enumerate(v.f):
            leaves(ip, st, x, key + (i,), out, seen)
    elif isinstance(v, P) and v.r[0] in ("L", "o", "c") and v not in seen:
        seen.add(v)
        x = ip.load(st, v)
        if isinstance(x, Lin):
            out[key + ("*",)] = (v, x)
        elif isinstance(x, A):
            deep_leaves(ip, st, v if x.v == 0 else P(v.r, v.p + (("d", x.v),)), x, key + ("*", x.v), out, seen)
        else:
            leaves(ip, st, x, key + ("*",), out, seen)
    return out


def deep_leaves(ip, st, p, x, key, out, seen):
    for i, y in enumerate(x.f):
        q = P(p.r, p.p + (i,))
        if isinstance(y, Lin):
            out[key + (i,)] = (q, y)
        elif isinstance(y, A):
            deep_leaves(ip, st, q if y.v == 0 else P(q.r, q.p + (("d", y.v),)), y, key + (i, y.v), out, seen)
        else:
            leaves(ip, st, y, key + (i,), out, seen)


def walkers(ip, st, clo):
    """the numbers and the vectors the callback may change"""
    v = ip.load(st, clo)
    out = {}
    if isinstance(v, A):
        deep_leaves(ip, st, clo, v, (), out, set())
    vs = []
    reach_vecs(ip, st, v, vs, set())
    return out, vs


def reach_vecs(ip, st, v, out, seen):
    if is_tag(v, "vec"):
        if v not in out:
            out.append(v)
    elif isinstance(v, A):
        for x in v.f:
            reach_vecs(ip, st, x, out, seen)
    elif isinstance(v, P) and v.r[0] == "vec":
        reach_vecs(ip, st, v.r, out, seen)
    elif isinstance(v, P) and v.r[0] in ("L", "o", "c") and v not in seen:
        seen.add(v)
        reach_vecs(ip, st, ip.load(st, v), out, seen)


def templates(d, o1, o2):
    """d branches open, o1 = O(d-1), o2 = O(d)"""
    return {"const": ZERO, "d": d, "O(d-1)": o1, "O(d)": o2}


# ------------------------------------------------------------------ the analyses
class Stop(Exception):
    pass


class Run:
    def __init__(self, prog, fname, kind):
        self.prog, self.fname, self.kind = prog, fname, kind
        self.finds = []
        self.stats = {"paths": 0, "steps": 0, "loops": 0, "invariants": 0, "rounds": 0, "fns": set(), "models": set()}
        self.calls = []         # (state, callback pointer, type of the callback, destination, target)
        self.fn = prog.fns[prog.roots[fname]]
        self.hidden = kind == "forest"

    def interp(self):
        from loops import Loops
        ip = Interp(self.prog, Models(self.prog), {"max_steps": 100000, "max_paths": 2000})
        ip.loops = Loops()
        ip.summaries.append((lambda ip, st, fn: fn.crate == self.fn.crate and "tup::Tup as" in fn.full, self.item))
        self.ip = ip
        return ip

    def item(self, ip, st, fn, args, atys, dty, unw):
        if fn.item == "height":
            return st.norm(HT - 1 if "TupleForest" in fn.full else HT)
        if fn.item == "descendants":
            k = args[0]
            return st.norm(B(k + 2) - B(k + 1))
        if fn.item == "preorder_with_size_hint":
            if st.ghost["tup"]["phase"] != "start":
                raise Violation("visits", "a second walk over the tuple")
            if args[0] != ("tuple",):
                raise Inconclusive("walk of %r" % (args[0],))
            dp, target = ip.cur_call
            self.calls.append((st.copy(), args[1], atys[1], dp, target, ip.where(st)))
            raise Infeasible()
        raise Inconclusive("%s of the tuple" % fn.item)

    def bad(self, rule, msg, where=None):
        self.finds.append((rule, msg, where or self.fn.full))

    def collect(self, ip, what, ok=("ret",)):
        self.finds += ip.violations
        for o in ip.outcomes:
            if o.kind not in ok:
                self.bad("panic", "%s: panics (%s)" % (what, o.val))
        self.stats["paths"] += len(ip.outcomes)
        self.stats["steps"] += ip.steps
        self.stats["loops"] += len(ip.loops.glob) if hasattr(ip.loops, "glob") else 0
        self.stats["fns"] |= {self.prog.fns[i].full for i in ip.fns_seen if self.prog.fns[i].crate == "trees"}
        self.stats["models"] |= set(ip.calls_seen)

    def go(self, ip, st, what):
        try:
            ip.run(st)
        except Inconclusive as e:
            self.bad("analysis", "%s: no verdict: %s" % (what, e), getattr(ip, "last_where", None))
        except Violation as v:
            self.bad(v.rule, "%s: %s" % (what, v.msg), getattr(ip, "last_where", None))

    def run(self):
        st = State()
        st.ghost = dict(st.ghost)
        st.ghost = dict(st.ghost, tup={"phase": "start"})
        st.assume_ge0(HT - 1)
        st.assume_ge0(N() - HT)
        ip = self.interp()
        ip.call_fn(st, self.fn, [("tuple",)], None, None, None)
        self.go(ip, st, "before the walk")
        self.collect(ip, "before the walk", ok=())
        if not self.calls and not self.finds:
            self.bad("visits", "the tuple is never walked")
        for i, c in enumerate(self.calls):
            self.case(i, *c)
        return sorted(set(self.finds)), self.stats

    # -------------------------------------------------------------- one way to reach the walk
    def case(self, n, st, clo, cty, dp, target, where):
        self.where = where
        ip = self.ip
        piles = [k for k in st.mem if k[0] == "v"]
        if len(piles) != 1:
            return self.bad("buffer", "%d node buffers when the tuple is walked" % len(piles), where)
        pid = piles[0][1]
        pl = st.mem[piles[0]]
        if not st.must_eq(pl["len"], N()):
            self.bad("buffer", "a buffer of %r slots for %r nodes" % (pl["len"], N()), where)
        if not st.must_eq(H.pile_ref(st, pid), N()):
            self.bad("count", "the count of the buffer is %r for %r nodes" % (H.pile_ref(st, pid), N()), where)
        ct = self.prog.ty(cty.d["to"]) if cty.k == "ref" else None
        if ct is None or ct.k != "closure":
            return self.bad("analysis", "no verdict: the callback is %s" % cty.name, where)
        self.cfn = self.prog.fns[ct.d["fn"]]
        self.base = (st, clo, dp, target, pid)
        nums, vs = walkers(ip, st, clo)
        for v in vs:
            items = tuple(e for e in st.mem[v] if not (e[0] == "r" and st.must_eq(e[2], ZERO)))
            off = ZERO
            ok = True
            for it in items:
                if it[0] == "e":
                    ok, k = st.must_eq(it[1], B(off)), ONE
                elif it[0] == "r" and isinstance(it[1], Lin):
                    k = it[2]
                    if st.must_eq(k, ONE):
                        ok = st.must_eq(subst(it[1], {IOTA: ZERO}), B(off))
                    else:
                        ok = it[1] == B(atom(IOTA) + off)
                else:
                    ok = False
                if not ok:
                    break
                off = st.norm(off + k)
            if ok:
                if not st.prove_ge0(off - HT):
                    self.bad("offsets", "first places of %r levels for %r levels" % (off, HT), where)
            else:
                return self.bad("offsets", "the first places per level are %s" % show(items), where)
        self.vecs = vs
        starts = []
        if self.hidden:
            # the root is there already
            if not self.root_ok(st, pid, None, None):
                return
            starts.append(st)
        else:
            starts = self.first(st, clo, pid)
        starts = [(s, walkers(ip, s, clo)[0]) for s in starts]
        if any(set(n) != set(starts[0][1]) for s, n in starts):
            return self.bad("analysis", "no verdict: the captured variables have several shapes", where)
        if self.finds:
            return
        if starts:
            self.houdini(starts, starts[0][1])
        if not self.finds:
            self.rest()

    def root_ok(self, st, pid, datum, size):
        L = H.L
        r = st.mem.get(("n", "root"))
        if r is None:
            self.bad("nodes", "the root is not made before its children", self.where)
            return False
        own = P(("v", pid), ())
        want = L.mk_node(prev=NONE, next=NONE, head=NONE, tail=NONE, up=NONE, size=size or L.mk_size(SD, N() - 1),
                         data=L.mk_data("PiledNone", None, own) if self.hidden else L.mk_data("Piled", datum, own))
        return self.same(st, r, want, "the root")

    def same(self, st, r, want, what):
        L = H.L
        ok = True
        for k in ("prev", "next", "head", "tail", "up", "size", "data"):
            a, b = r["val"].f[L.F[k]], want.f[L.F[k]]
            if not rebuild.eqv(st, a, b):
                self.bad("sizes" if k == "size" else "data" if k == "data" else "links", "%s of %s: %s" % (k, what, rebuild.why(st, a, b)), self.where)
                ok = False
        if r["borrow"] != ZERO or not (isinstance(r["rc"], Lin) and st.must_eq(r["rc"], ONE)) or r["st"] != "live":
            self.bad("count", "%s: borrow %r, count %r, %s" % (what, r["borrow"], r["rc"], r["st"]), self.where)
            ok = False
        return ok

    def visit_args(self, kind, name):
        vt = [t for t in self.prog.tys if t.k == "adt" and t.path == "trees::tuple::Visit" and "opq::Elem" in t.name][0]
        names = [v["n"] if isinstance(v, dict) and "n" in v else v for v in vt.d["v"]]
        i = [str(x) for x in names].index(kind)
        v = A(i, () if kind == "Frame" else (("datum", name),))
        return v, H.L.mk_size(sym("sd_" + name), sym("sz_" + name))

    def call(self, s, clo, kind, name, what):
        """interprets the callback; -> final states"""
        ip = self.interp()
        done = []
        v, size = self.visit_args(kind, name)

        def then(ip, s, x):
            c = s.copy()
            done.append(c)
            raise Infeasible()
        _, _, dp, target, _ = self.base
        args = [clo, v, size]
        ip.call_fn(s, self.cfn, args, dp, target, None, note=("then", then))
        self.go(ip, s, what)
        self.collect(ip, what)
        return done, v, size

    def first(self, st, clo, pid):
        """the visit of the root"""
        out = []
        for kind in ("Leaf", "Branch"):
            s = st.copy()
            try:
                if kind == "Leaf":
                    s.assume_eq(HT, ONE)
                else:
                    s.assume_ge0(HT - 2)
            except Infeasible:
                continue
            done, v, size = self.call(s, clo, kind, "r", "the first visit (%s)" % kind)
            if not done and not self.finds:
                self.bad("visits", "the first visit (%s) never returns" % kind, self.where)
            for f in done:
                self.root_ok(f, pid, ("datum", "r"), size)
                if kind == "Branch":
                    self.vec_is(f, None, B, "the first visit")
                    out.append(f)
        return out

    def vec_is(self, st, level, fun, what):
        """the vectors hold fun(l) for every level l, one more at `level`"""
        for v in self.vecs:
            off = ZERO
            iota = atom(IOTA)
            for it in st.mem[v]:
                n = ONE if it[0] == "e" else it[2]
                if st.must_eq(n, ZERO):
                    continue
                if it[0] == "r" and isinstance(it[1], Lin) and st.must_eq(n, ONE):
                    it = ("e", subst(it[1], {IOTA: ZERO}))
                if it[0] == "e":
                    want = fun(off)
                    ok = st.must_eq(it[1], want) if level is None or not st.must_eq(off, level) else st.must_eq(it[1], want + 1)
                    if level is not None and not ok and st.must_eq(off, level):
                        self.bad("offsets", "%s: the next place at level %r is %r instead of %r" % (what, off, st.norm(it[1]), st.norm(want + 1)), self.where)
                        return
                else:
                    ok = it[0] == "r" and isinstance(it[1], Lin) and st.norm(it[1] - subst(fun(iota), {IOTA: iota + off})) == ZERO
                    if level is not None and not (st.prove_ge0(off - level - 1) or st.prove_ge0(level - off - n)):
                        ok = False
                if not ok:
                    self.bad("offsets", "%s: the places per level become %s" % (what, show(st.mem[v])), self.where)
                    return
                off = st.norm(off + n)
            if not st.prove_ge0(off - HT):
                self.bad("offsets", "%s: the places of %r levels for %r levels" % (what, off, HT), self.where)

    # -------------------------------------------------------------- the walk
    def houdini(self, starts, nums):
        base, clo, dp, target, pid = self.base
        cands = {}
        for k in nums:
            cs = []
            for name in ("const", "d", "O(d-1)", "O(d)"):
                c = None
                for s, vals in starts:
                    t = templates(ONE, ZERO, ONE)[name]
                    x = s.norm(vals[k][1] - t)
                    if not x.is_const() or c not in (None, x.c):
                        c = False
                        break
                    c = x.c
                if c is not False and c is not None:
                    cs.append((name, c))
            cands[k] = cs
        for rnd in range(30):
            self.stats["rounds"] += 1
            drop = set()
            self.found = []
            keep, self.finds = self.finds, []
            for s0, _ in starts[:1]:
                for kind, d1, kids in self.steps():
                    self.step(s0, clo, pid, nums, cands, kind, d1, kids, drop)
            new, self.finds = self.finds, keep
            if not drop:
                self.finds += new
                self.stats["invariants"] += sum(len(c) for c in cands.values())
                return
            cands = {k: [c for c in cs if (k, c) not in drop] for k, cs in cands.items()}
        self.bad("analysis", "no verdict: no invariant of the callback", self.where)

    def steps(self):
        for kind in ("Leaf", "Branch"):
            for d1 in (True, False):
                for kids in (0, 1, 2):
                    yield kind, d1, kids
        for d1 in ((False,) if self.hidden else (True, False)):
            for kids in (1, 2):
                yield "Frame", d1, kids

    def step(self, base, clo, pid, nums, cands, kind, d1, kids, drop):
        st = base.copy()
        what = "%s as child of %s with %s" % (kind, "the root" if d1 else "a node", ("no child", "one child", "more children")[kids]) if kind != "Frame" else \
            "end of %s with %s" % ("the root" if d1 else "a node", ("", "one child", "more children")[kids])
        d = sym("open")
        st.ghost = dict(st.ghost, tup={"phase": "walk"})
        L = H.L
        try:
            st.assume_ge0(d - 1)
            if d1:
                st.assume_eq(d, ONE)
            else:
                st.assume_ge0(d - 2)
                st.assume_ge0(O(d - 2) - B(d - 2))
                st.assume_ge0(B(d - 1) - 1 - O(d - 2))
                st.assume_ge0(B(d - 1) - 1)
            st.assume_ge0(O(d - 1) - B(d - 1))
            st.assume_ge0(B(d) - 1 - O(d - 1))
            st.assume_ge0(O(d) - B(d) - kids)
            st.assume_ge0(HT - d - 1)
            st.assume_ge0(N() - B(d + 1))
            st.assume_ge0(B(d + 1) - O(d) - (0 if kind == "Frame" else 1))
            if kind == "Branch":
                st.assume_ge0(HT - d - 2)
            st.assume_ge0(HT - 2)
            # the slots in view
            H.set_pile(st, pid, slots=())
            for k in [k for k in st.mem if k[0] == "n"]:
                st.rm(k)
            p_, t_, f_ = O(d - 1), O(d) - 1, O(d)
            head = NONE if kids == 0 else link("t") if kids == 1 else opq(("p", "head"))
            up = NONE if d1 else SOME(opq(("p", "up")))
            root = self.hidden and d1
            put_node(st, pid, "p", st.norm(p_), filled(pid, "p", hidden=root, head=head, tail=NONE if kids == 0 else link("t"), up=up,
                                                       **({"prev": NONE, "next": NONE} if d1 else {"next": NONE})))
            if kids:
                put_node(st, pid, "t", st.norm(t_), filled(pid, "t", next=NONE, up=link("p"), prev=NONE if kids == 1 else SOME(opq(("t", "prev")))))
            if kind != "Frame":
                put_node(st, pid, "f", st.norm(f_), empty())
            for v in self.vecs:
                st.put(v, (("r", O(atom(IOTA)), st.norm(self.ip.models.vlen(base, base.mem[v]))),))
            tm = templates(d, O(d - 1), O(d))
            for k, (ptr, _) in nums.items():
                cs = cands[k]
                x = tm[cs[0][0]] + cs[0][1] if cs else sym("v_" + "_".join(map(str, k)))
                self.ip.store(st, ptr, st.norm(x))
                for c in cs[1:]:
                    st.assume_eq(st.norm(x), st.norm(tm[c[0]] + c[1]))
        except Infeasible:
            return
        before = {k[1]: st.mem[k]["val"] for k in st.mem if k[0] == "n"}
        sent = {k: self.ip.load(st, p) for k, (p, _) in nums.items()}
        done, v, size = self.call(st, clo, kind, "f", what)
        if not done and not self.finds:
            self.bad("visits", "%s: the callback never returns" % what, self.where)
        for s in done:
            self.check(s, clo, pid, kind, d1, kids, d, cands, nums, before, size, drop, what)

    def check(self, s, clo, pid, kind, d1, kids, d, cands, nums, before, size, drop, what):
        L = H.L
        own = P(("v", pid), ())

        def changed(name, **kw):
            v = before[name]
            fs = list(v.f)
            for k, x in kw.items():
                fs[L.F[k]] = x
            return A(v.v, tuple(fs))
        want = {n: before[n] for n in before}
        if kind != "Frame":
            want["f"] = L.mk_node(prev=link("t") if kids else NONE, next=NONE, head=NONE, tail=NONE, up=link("p"), size=size,
                                  data=L.mk_data("Piled", ("datum", "f"), own))
            want["p"] = changed("p", tail=link("f"), **({} if kids else {"head": link("f")}))
            if kids:
                want["t"] = changed("t", next=link("f"))
        title = {"p": "the open branch", "t": "its last child", "f": "the new node"}
        for k in s.mem:
            if k[0] == "n" and k[1] not in want:
                self.bad("slot", "%s: an unexpected node is touched" % what, self.where)
        for n in want:
            r = s.mem.get(("n", n))
            if r is None:
                self.bad("nodes", "%s: %s is gone" % (what, title[n]), self.where)
            else:
                self.same(s, r, want[n], "%s (%s)" % (title[n], what))
        pl = s.mem.get(("v", pid))
        if pl is None or pl["st"] != "live" or not s.must_eq(pl["len"], N()) or not s.must_eq(H.pile_ref(s, pid), N()):
            self.bad("count", "%s: the buffer or its count is changed" % what, self.where)
        level = {"Leaf": d, "Branch": None, "Frame": d - 1}[kind]
        self.vec_is(s, level, O, what)
        # the captured numbers
        if kind == "Frame" and d1:
            return
        if kind == "Leaf":
            tm = templates(d, O(d - 1), O(d) + 1)
        elif kind == "Branch":
            tm = templates(d + 1, O(d), O(d + 1))
        else:
            tm = templates(d - 1, O(d - 2), O(d - 1) + 1)
        now = walkers(self.ip, s, clo)[0]
        for k in nums:
            if k not in now:
                self.bad("analysis", "no verdict: a captured variable changes its shape", self.where)
                continue
            for c in cands[k]:
                if not s.must_eq(now[k][1], tm[c[0]] + c[1]):
                    drop.add((k, c))

    # -------------------------------------------------------------- after the walk
    def rest(self):
        base, clo, dp, target, pid = self.base
        st = base.copy()
        st.ghost = dict(st.ghost, tup={"phase": "end"})
        for k in [k for k in st.mem if k[0] == "n"]:
            st.rm(k)
        H.set_pile(st, pid, slots=())
        L = H.L
        put_node(st, pid, "root", ZERO, filled(pid, "root", hidden=self.hidden, up=NONE, prev=NONE, next=NONE, size=L.mk_size(SD, N() - 1)))
        want = H.rec(st, "root")["val"]
        for k, (p, _) in walkers(self.ip, st, clo)[0].items():
            self.ip.store(st, p, sym(st.fresh("end")))
        for v in self.vecs:
            st.put(v, (("r", atom(("EE", None, atom(IOTA))), st.norm(self.ip.models.vlen(base, base.mem[v]))),))
        ip = self.interp()
        try:
            ip.finish_call(st, UNIT, dp, target, None)
        except Violation as v:
            return self.bad(v.rule, v.msg)
        self.go(ip, st, "after the walk")
        self.collect(ip, "after the walk")
        if not ip.outcomes and not self.finds:
            self.bad("analysis", "no path returns a result")
        for o in ip.outcomes:
            s, v = o.st, o.val
            s.j = None
            if o.kind != "ret":
                continue
            p = [x for x in v.f if isinstance(x, P)] if isinstance(v, A) else [v] if isinstance(v, P) else []
            if len(p) != 1 or s.root(p[0].r) != ("n", "root"):
                self.bad("root", "the result is %r" % (v,))
                continue
            self.where = self.fn.full
            self.same(s, H.rec(s, "root"), want, "the root")
            pl = s.mem[("v", pid)]
            if pl["st"] != "live" or not s.must_eq(H.pile_ref(s, pid), N()) or not s.must_eq(pl["len"], N()):
                self.bad("count", "the buffer or its count is changed after the walk")


def show(items):
    return ", ".join("%r" % (x[1],) if x[0] == "e" else "%r (x %r)" % (x[1], x[2]) for x in items) or "none"


def run(prog, fname, kind):
    if fname not in prog.roots:
        return [("anchor", "the client function %s was not compiled" % fname, fname)], {}
    return Run(prog, fname, kind).run()


def job(a):
    dump, fname, kind = a
    try:
        from mir import Program
        prog = Program(dump)
        H.set_layout(H.Layout(prog))
        f, s = run(prog, fname, kind)
        return a, f, s, None
    except Exception as e:
        import traceback
        return a, [], {}, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])


def check(ws, pid, tier):
    dump = ws.dump_probes(ws.compile_crate())
    jobs = [(dump, "tt_tree", "tree"), (dump, "tt_forest", "forest")]
    cov = {"tuple_analyses": 0, "tuple_paths": 0, "tuple_abstract_steps": 0, "tuple_rounds": 0, "tuple_invariants": 0}
    viol, fns, models = [], set(), set()
    for j in jobs:
        (_, fname, kind), finds, s, err = job(j)
        if err:
            viol.append(("%s|analysis" % fname, "%s: analysis failed: %s" % (fname, err)))
            continue
        cov["tuple_analyses"] += 1
        for k, x in (("paths", "paths"), ("abstract_steps", "steps"), ("rounds", "rounds"), ("invariants", "invariants")):
            cov["tuple_" + k] += s[x]
        fns |= s["fns"]
        models |= s["models"]
        for rule, msg, where in finds:
            viol.append(("%s|%s|%s" % (fname, rule, where), "%s: [%s] %s  at %s" % (fname, rule, msg, where)))
    cov["tuple_functions"] = sorted(x.replace("opq::Elem", "T") for x in fns)
    cov["tuple_std_models_used"] = sorted(models)
    return {"coverage": cov, "violations": viol, "names": [j[1] for j in jobs]}
