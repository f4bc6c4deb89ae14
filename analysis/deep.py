"""Deep clones: what the collected stream yields, step by step.

Tree::from(BfsTree) and Forest::from(BfsForest) are replaced by their contract (P13); what is analysed here is the stream
handed to them: where it starts, and one call of its next() from an arbitrary point.  Streams over borrowed nodes are
those of bfs() and bfs_children() (P12), of which one visit is taken at a time; a stream that keeps its own queue of
handles is analysed from a queue with an arbitrary first handle and anything behind it."""
from core import *
import heap as H
import contracts
from models import vecs_in


def collects(fn):
    """Some("Tree" | "Forest") for the function that collects a stream"""
    if fn.item != "from" or fn.argc != 1 or not fn.locals:
        return None
    a, r = H.L.prog.ty(fn.locals[1]), H.L.prog.ty(fn.locals[0])
    k = a.path.rsplit("::", 1)[-1] if a.k == "adt" else ""
    w = r.path.rsplit("::", 1)[-1] if r.k == "adt" else ""
    return w if (k, w) in (("BfsTree", "Tree"), ("BfsForest", "Forest")) else None


def memo(fn_pred):
    m = {}

    def pred(ip, st, fn):
        r = m.get(fn.id)
        if r is None:
            r = m[fn.id] = bool(fn_pred(fn))
        return r
    return pred


def streams_in(v, path, out):
    if is_tag(v, "qv"):
        out.append((v, path))
    elif isinstance(v, A):
        for i, x in enumerate(v.f):
            streams_in(x, path + (i,), out)


def put_at(v, path, x):
    if not path:
        return x
    fs = list(v.f)
    fs[path[0]] = put_at(fs[path[0]], path[1:], x)
    return A(v.v, tuple(fs))


def get_at(v, path):
    for i in path:
        v = v.f[i]
    return v


def visit_type(ip, ref):
    return [t for t in ip.prog.tys if t.k == "adt" and t.path == "trees::bfs::Visit" and "opq::Elem" in t.name and ("&" in t.name) == ref and "mut" not in t.name][0]


def next_fn(ip, tid):
    for f in ip.prog.fns:
        if f.item == "next" and f.trait and f.trait.endswith("Iterator") and f.locals and f.argc == 1:
            t = ip.prog.ty(f.locals[1])
            if t.k == "ref" and t.d["to"] == tid:
                return f
    raise Inconclusive("the step of the collected stream was not compiled")


def install(ip):
    prog, L = ip.prog, H.L

    # ---- bfs() and bfs_children(): the streams of P12
    def is_bfs(fn):
        return fn.crate == "trees" and fn.item in ("bfs", "bfs_children") and fn.argc == 1 and fn.locals and prog.ty(fn.locals[1]).name.startswith("&trees::") \
            and prog.ty(fn.locals[1]).name.split("<")[0].endswith("Node")

    def do_bfs(ip, st, fn, args, atys, dty, unw):
        q = ip.resolve(st, args[0])
        if q.r[0] != "n":
            raise Inconclusive("breadth-first walk of an unknown node")
        nid = q.r[1]
        r = H.rec(st, nid)
        S = ("B" if fn.item == "bfs" else "C", r["src"])
        t = prog.ty(fn.locals[0])
        n = st.norm(st.cnt(*r["src"]) - 1)
        d = ONE if fn.item == "bfs" else st.deg(*r["src"])
        return L.mk_struct(t, iter=("qv", S, ZERO), size=L.mk_size(d, n))
    ip.summaries.append((memo(is_bfs), do_bfs))

    # ---- a step of such a stream
    def splitted(fn):
        if fn.item != "next" or not fn.locals or fn.argc != 1:
            return False
        t = prog.ty(fn.locals[1])
        return t.k == "ref" and prog.ty(t.d["to"]).path.endswith("::Splitted")

    def do_step(ip, st, fn, args, atys, dty, unw):
        v = ip.load(st, args[0])
        if not is_tag(v, "qv"):
            return NotImplemented
        S, k = v[1], st.norm(v[2])
        st.event("step", k)
        n = total(st, S)
        if st.decide("eq0", n - k):
            return NONE
        ip.store(st, args[0], ("qv", S, st.norm(k + 1)))
        o = ("o", st.fresh("datum"))
        st.put(o, ("e", S, k))
        return SOME(L.mk_struct(visit_type(ip, True), data=P(o), size=size_at(st, S, k)))
    ip.summaries.append((memo(splitted), do_step))

    # ---- children of a handle, as opaque handles
    it = [t for t in prog.tys if t.k == "adt" and t.path.endswith("::IterRc")]
    itid = it[0].id if it else None

    def is_iter_rc(fn):
        return fn.crate == "trees" and fn.item == "iter_rc" and fn.argc == 1 and prog.ty(fn.locals[0]).id == itid and L.rcnode is not None \
            and prog.ty(fn.locals[1]).d.get("to") == L.rcnode.id

    def do_iter_rc(ip, st, fn, args, atys, dty, unw):
        return ("rcit", L.handle_node(ip, st, ip.load(st, args[0])), ZERO)
    ip.summaries.append((memo(is_iter_rc), do_iter_rc))

    def is_rc_next(fn):
        if fn.item != "next" or not fn.locals or fn.argc != 1:
            return False
        t = prog.ty(fn.locals[1])
        return t.k == "ref" and t.d["to"] == itid

    def do_rc_next(ip, st, fn, args, atys, dty, unw):
        v = ip.load(st, args[0])
        if not is_tag(v, "rcit"):
            return NotImplemented
        src = H.rec(st, v[1])["src"]
        k = st.norm(v[2])
        if st.decide("eq0", st.deg(*src) - k):
            return NONE
        ip.store(st, args[0], ("rcit", v[1], st.norm(k + 1)))
        return SOME(("rch", v[1], k))
    ip.summaries.append((memo(is_rc_next), do_rc_next))

    def is_hint(fn):
        if fn.item not in ("size_hint", "len") or not fn.locals or fn.argc != 1:
            return False
        t = prog.ty(fn.locals[1])
        return t.k == "ref" and t.d["to"] == itid

    def do_hint(ip, st, fn, args, atys, dty, unw):
        v = ip.load(st, args[0])
        if not is_tag(v, "rcit"):
            return NotImplemented
        n = st.norm(st.deg(*H.rec(st, v[1])["src"]) - v[2])
        return n if fn.item == "len" else A(0, (n, SOME(n)))
    ip.summaries.append((memo(is_hint), do_hint))

    def is_it_clone(fn):
        return fn.item == "clone" and fn.crate == "trees" and fn.argc == 1 and prog.ty(fn.locals[0]).id == itid

    def do_it_clone(ip, st, fn, args, atys, dty, unw):
        v = ip.load(st, args[0])
        return v if is_tag(v, "rcit") else NotImplemented
    ip.summaries.append((memo(is_it_clone), do_it_clone))

    def is_it_drop(ip, st, fn):
        return bool(it) and fn.id == it[0].d.get("drop")

    def do_it_drop(ip, st, fn, args, atys, dty, unw):
        return UNIT if is_tag(ip.load(st, args[0]), "rcit") else NotImplemented
    ip.summaries.insert(0, (is_it_drop, do_it_drop))

    def is_rch_drop(ip, st, fn):
        return L.rcnode is not None and fn.id == L.rcnode.d["drop"]

    def do_rch_drop(ip, st, fn, args, atys, dty, unw):
        v = ip.load(st, args[0])
        if is_tag(v, "rch"):
            raise Violation("queue", "child %r of the visited node is left out of the queue" % (v[2],))
        return NotImplemented
    ip.summaries.insert(0, (is_rch_drop, do_rch_drop))

    # ---- the collecting function
    ip.summaries.append((memo(collects), collect))


def total(st, S):
    n = st.cnt(*S[1])
    return st.norm(n if S[0] == "B" else n - 1)


def size_at(st, S, k):
    if S[0] == "B" and st.norm(k) == ZERO:
        return H.L.mk_size(st.deg(*S[1]), st.norm(st.cnt(*S[1]) - 1))
    return H.L.mk_size(st.deg(S, k), st.norm(st.cnt(S, k) - 1))


def collect(ip, st, fn, args, atys, dty, unw):
    L = H.L
    tree = collects(fn) == "Tree"
    ta = ip.prog.ty(fn.locals[1])
    v = args[0]
    it, size = struct_fields(ip, ta, v)
    if st.ghost.get("deep_done"):
        raise Violation("copy", "a second copy is collected")
    if any(is_tag(e, "clone") for e in st.log):
        raise Violation("copy", "a datum is cloned before the copy is collected")
    itid = [ip.prog.ty(x) for x in ta.d["args"]][0].id
    step = next_fn(ip, itid)
    qs = []
    streams_in(it, (), qs)
    if len(qs) == 1:
        (_, S, k), path = qs[0]
        if not st.must_eq(k, ZERO):
            raise Violation("copy", "the copy starts at visit %r" % (k,))
        if (S[0] == "B") != tree:
            raise Violation("copy", "a %s is collected from the visits of %s" % ("tree" if tree else "forest", "a whole tree" if S[0] == "B" else "children"))
        if not tree and not eq_size(st, size, L.mk_size(st.deg(*S[1]), st.norm(st.cnt(*S[1]) - 1))):
            raise Violation("sizes", "the copied forest is announced with size %r" % (size,))
        K = sym(st.fresh("k"))
        st.assume_ge0(K)
        st.assume_ge0(total(st, S) - K)
        return run_step(ip, st, fn, step, put_at(it, path, ("qv", S, K)), Stream(S, K, path), unw, ("deep", "tree" if tree else "forest", S[1]))
    if qs:
        raise Inconclusive("a stream made of %d streams" % len(qs))
    # a queue of handles
    vs = []
    vecs_in(it, vs)
    if len(vs) != 1:
        raise Inconclusive("a stream of an unknown kind")
    items = [x for x in st.mem[vs[0]]]
    if len(items) != 1 or items[0][0] != "e":
        raise Violation("queue", "the queue starts with %d handles" % len(items))
    a = L.handle_node(ip, st, items[0][1])
    src = H.rec(st, a)["src"]
    if "deep_empty" not in st.ghost:
        def mode(e):
            def go(s):
                s.ghost = dict(s.ghost)
                s.ghost["deep_empty"] = e
            return go
        raise Fork([mode(False), mode(True)])
    return run_step(ip, st, fn, step, it, Queue(vs[0], a, src, items[0][1]), unw, ("deep", "tree" if tree else "forest", src))


def names(t):
    return [n for n, _ in t.d["v"][0]["f"]]


def struct_fields(ip, ta, v):
    ns = names(ta)
    return v.f[ns.index("iter")], v.f[ns.index("size")]


def eq_size(st, a, b):
    return isinstance(a, A) and all(st.must_eq(x, y) for x, y in zip(a.f, b.f))


class Stream:
    """one visit of a stream over borrowed nodes"""

    def __init__(self, S, K, path):
        self.S, self.K, self.path = S, K, path

    def check(self, ip, st, x, after):
        S, K = self.S, st.norm(self.K)
        if st.decide("eq0", total(st, S) - K):
            if not H.is_none(x):
                raise Violation("copy", "a visit after the last one")
            return
        d, size = visit(ip, st, x)
        if d != ("cl", ("e", S, K)) and H.norm_val(st, d) != ("cl", ("e", S, K)):
            raise Violation("copy", "visit %r of the copy has %r as its datum" % (K, d))
        if not eq_size(st, size, size_at(st, S, K)):
            raise Violation("sizes", "visit %r of the copy has size %r" % (K, size))
        cl = [e for e in st.log if is_tag(e, "clone")]
        if len(cl) != 1:
            raise Violation("copy", "a datum is cloned %d times" % len(cl))
        q = get_at(after, self.path)
        if not (is_tag(q, "qv") and st.must_eq(q[2], K + 1)):
            raise Violation("copy", "one step of the copy takes more than one visit")


class Queue:
    """one visit of a queue of handles: it starts as one handle, and is then anything"""

    def __init__(self, vec, a, src, h):
        self.vec, self.a, self.src, self.h = vec, a, src, h

    def start(self, ip, st):
        if st.ghost["deep_empty"]:
            contracts.unown(ip, st, self.a)
            st.put(self.vec, ())
        else:
            n = sym(st.fresh("behind"))
            st.assume_ge0(n)
            self.rest = ("rest", None, n)
            st.put(self.vec, (("e", self.h), self.rest))

    def check(self, ip, st, x, after):
        if st.ghost["deep_empty"]:
            if not H.is_none(x):
                raise Violation("copy", "a visit although no handle is left")
            return
        d, size = visit(ip, st, x)
        S, i = self.src
        if H.norm_val(st, d) != ("cl", ("e", S, st.norm(i))):
            raise Violation("copy", "the copy of a node has %r as its datum" % (d,))
        if not eq_size(st, size, H.L.mk_size(st.deg(S, i), st.norm(st.cnt(S, i) - 1))):
            raise Violation("sizes", "the copy of a node has size %r" % (size,))
        if len([e for e in st.log if is_tag(e, "clone")]) != 1:
            raise Violation("copy", "a datum is not cloned exactly once")
        q = [it for it in st.mem[self.vec]]
        if not q or q[0][0] != "rest" or not st.must_eq(q[0][2], self.rest[2]):
            raise Violation("queue", "the queue is not shortened by its first handle")
        n = st.deg(S, i)
        at = ZERO
        for it in q[1:]:
            if it[0] == "e":
                lo, ln, tok = at, ONE, it[1]
            elif it[0] == "r":
                lo, ln, tok = at, it[2], it[1]
            else:
                raise Inconclusive("queue of handles %r" % (q,))
            want = ("rch", self.a, lo) if it[0] == "e" else ("rch", self.a, atom(("iota",)) + lo)
            if not (is_tag(tok, "rch") and tok[1] == self.a and st.must_eq(tok[2], want[2])):
                raise Violation("queue", "the queue gets %r at place %r" % (tok, at))
            at = st.norm(at + ln)
        if not st.must_eq(at, n):
            raise Violation("queue", "%r of %r children are queued" % (at, n))


def visit(ip, st, x):
    if not (isinstance(x, A) and x.f):
        raise Violation("copy", "the copy ends before the source")
    t = visit_type(ip, False)
    ns = names(t)
    v = x.f[0]
    return v.f[ns.index("data")], v.f[ns.index("size")]


def run_step(ip, st, fn, step, it, kind, unw, token):
    st.ghost = dict(st.ghost)
    st.ghost["deep_done"] = True
    o = ("o", st.fresh("iter"))
    st.put(o, it)
    if hasattr(kind, "start"):
        kind.start(ip, st)

    def then(ip, s, x):
        kind.check(ip, s, x, s.mem[o])
        s.event("deep")
        s.rm(o)
        return token
    dp, target = ip.cur_call
    ip.call_fn(st, step, [P(o)], dp, target, unw, note=("then", then))
    return ("pushed",)
