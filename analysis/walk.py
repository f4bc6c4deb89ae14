"""Depth-first cursors: the set of reachable abstract cursor states is computed (inductively) together with the logical
state of the traversal; every operation is checked in every reachable state.

A cursor state is the whole value of the cursor; the stack of path entries is summarised by LZ(x), the entries of node x and
of all its visible ancestors.  What an entry looks like is learned from the code."""
import heap as H
from core import *
from heap import rec, getf
from spec import Probe, Build, Check, run_probe

OPS = ("forward", "next", "to_parent", "get_parent", "to_child", "to_sib", "revisit", "get")
NUM = {"Begin": 1, "Leaf": 2, "End": 3}


class World:
    def __init__(self, kind):
        self.kind = kind            # tree | forest
        self.t0 = None              # entry of the bottom of the path
        self.t1 = None              # other entries

    # ---- the tree around the cursor
    def visible_parent(self, st, nid):
        up = getf(st, nid, "up")
        if isinstance(up, Lazy):
            H.force_up(st, nid)
            up = getf(st, nid, "up")
        if up == NONE:
            if self.kind == "forest":
                raise Infeasible()
            return None
        r = st.root(up.f[0].r)
        if r[0] == "a":
            r = H.expand_chain(st, r[1])
        p = r[1]
        if rec(st, p)["hidden"] is None:
            H.force_data(st, p)
        if rec(st, p)["hidden"]:
            if self.kind == "tree":
                raise Infeasible()
            return None
        return p

    # ---- the summarised path
    def expand(self, ip, st, v, items):
        q = st.root(items[-1][1].r)[1]
        dep = items[-1][2]
        p = self.visible_parent(st, q)
        if p is None:
            st.assume_eq(dep, ONE)
            head, t = (), self.t0
        else:
            dp = atom(("s", "depth_" + p))
            st.assume_ge0(dp - 1)
            st.assume_eq(dep, dp + 1)
            head, t = (("lz", P(("n", p)), dp),), self.t1 or self.t0
        return items[:-1] + head + (("e", subst(t, q)),)

    def fold(self, ip, st, items):
        """-> (node on top of the summarised path or None, entries above it)"""
        cur = None
        items = list(items)
        if items and items[0][0] == "lz":
            cur = st.root(items[0][1].r)[1]
            items = items[1:]
        while items:
            if items[0][0] != "e":
                raise Inconclusive("path of the cursor")
            e = items[0][1]
            q = entry_node(ip, st, e)
            if q is None or self.visible_parent(st, q) != cur:
                break
            t = template(st, e, q)
            if cur is None:
                if self.t0 is None:
                    self.t0 = t
                if t != self.t0:
                    break
            else:
                if self.t1 is None:
                    self.t1 = t
                if t != self.t1:
                    break
            cur = q
            items = items[1:]
        return cur, items


def entry_node(ip, st, e):
    out = []

    def go(v):
        if isinstance(v, P):
            out.append(v)
        elif isinstance(v, A):
            for x in v.f:
                go(x)
    go(e)
    ids = {st.root(ip.resolve(st, p).r)[1] for p in out if st.root(ip.resolve(st, p).r)[0] == "n"}
    if len(ids) != 1 or len(ids) != len({st.root(p.r) for p in out}):
        return None
    return ids.pop()


def template(st, v, q):
    if isinstance(v, P):
        return ("hole", v.p) if st.root(v.r) == ("n", q) else v
    if isinstance(v, A):
        return A(v.v, tuple(template(st, x, q) for x in v.f))
    return v


def subst(t, q):
    if is_tag(t, "hole"):
        return P(("n", q), t[1])
    if isinstance(t, A):
        return A(t.v, tuple(subst(x, q) for x in t.f))
    return t


# ---------------------------------------------------------------------------- canonical states
def ser(W, ip, st, v, owner, out):
    """canonical form of the cursor; out: nodes on top of summarised paths"""
    if isinstance(v, A):
        return ("A", v.v) + tuple(ser(W, ip, st, x, owner, out) for x in v.f)
    if isinstance(v, Lin):
        v = st.norm(v)
        if not v.is_const():
            raise Inconclusive("a cursor holds the number %r" % v)
        return ("n", v.c)
    if isinstance(v, P):
        p = ip.resolve(st, v)
        r = st.root(p.r)
        if r == ("n", owner):
            return ("ptr", "owner", p.p)
        if r[0] == "n":
            S, i = rec(st, r[1])["src"]
            S = st.norm_seq(S)
            own = rec(st, owner)["src"]
            if S == ("k",) + tuple(own) and st.must_eq(i, ZERO):
                return ("ptr", "front", p.p)
        raise Inconclusive("a cursor points to %s" % (H.nm(st, r[1]) if r[0] == "n" else r,))
    if is_tag(v, "vec"):
        cur, items = W.fold(ip, st, st.mem[v])
        out.append(cur)
        rest = []
        for it in items:
            x = []
            rest.append(ser(W, ip, st, it[1], owner, x))
            if x:
                raise Inconclusive("nested paths")
        return ("vec", cur is not None, tuple(rest))
    if v is UNINIT:
        return ("uninit",)
    raise Inconclusive("a cursor holds %r" % (v,))


def unser(W, b, s, cur, owner, front):
    if s[0] == "A":
        return A(s[1], tuple(unser(W, b, x, cur, owner, front) for x in s[2:]))
    if s[0] == "n":
        return Lin(s[1])
    if s[0] == "ptr":
        return P(("n", owner) if s[1] == "owner" else front(), s[2])
    if s[0] == "vec":
        v = ("vec", b.st.fresh("vec"))
        items = ()
        if s[1]:
            dp = atom(("s", "depth_x"))
            b.st.assume_ge0(dp - 1)
            items = (("lz", P(("n", cur)), dp),)
        items += tuple(("e", unser(W, b, x, cur, owner, front)) for x in s[2])
        b.st.put(v, items)
        return v
    return UNINIT


class Key:
    """logical state of the traversal + canonical value of the cursor"""

    def __init__(self, logical, value, empty):
        self.logical = logical      # Begin | Leaf | End | Past | Over
        self.value = value
        self.empty = empty          # forest without trees
        self.k = (logical, value, empty)

    def show(self):
        return "%s%s" % (self.logical, "" if not self.empty else " (empty forest)")


def visit_of(st, S, i):
    """a node reached from above: Begin or Leaf"""
    return "Leaf" if st.decide("eq0", st.deg(S, i)) else "Begin"


def expected(W, c, key, op, o, x, n):
    """-> (results of the call: list of visits, logical state after, node the cursor is on: (S, i) or None)
    visit: None or (kind, S, i)"""
    st, L = c.st, key.logical
    X = rec(st, x)["src"] if x else None

    def par():
        p = W.visible_parent(st, x)
        return None if p is None else rec(st, p)["src"]

    def end_parent():
        p = par()
        return ("Over", None) if p is None else ("End", p)

    def sib(n):
        """the n-th sibling to the right (n >= 1), as (S, i), or None"""
        cx = c.context_of(x)
        if cx is None:
            return None
        p, b = cx
        if st.decide("ge0", b - n):
            return ("R", p), st.norm(n - 1)
        return None

    def past():
        return ("Past", par()) if par() else ("Over", None)
    if op == "get" or op == "get_parent":
        return L, X
    if op in ("forward", "next"):
        if L == "Over":
            return "Over", None
        if L == "Past":
            return "End", X
        if L == "Begin":
            k = (("k",) + tuple(X), ZERO)
            return visit_of(st, *k), k
        s = sib(ONE)
        if s is None:
            return end_parent()
        return visit_of(st, *s), s
    if op == "to_parent":
        if L == "Over":
            return "Over", None
        if L == "Past":
            return "End", X
        return end_parent()
    if op == "to_sib":
        if L in ("Over", "Past"):
            return L, X
        if st.decide("eq0", n):
            return visit_of(st, *X), X
        s = sib(n)
        if s is None:
            return past()
        return visit_of(st, *s), s
    if op == "to_child":
        if L in ("Over", "Past"):
            return L, X
        if L == "Leaf":
            return "Leaf!", X
        if st.decide("ge0", st.deg(*X) - n - 1):
            k = (("k",) + tuple(X), st.norm(n))
            return visit_of(st, *k), k
        return "Past", X
    if op == "revisit":
        if L in ("Begin", "Leaf", "End"):
            return ("Leaf" if L == "Leaf" else "Begin"), X
        if W.kind == "tree":
            k = rec(st, o)["src"]
        else:
            if key.empty:
                return "Over", None
            k = (("k",) + tuple(rec(st, o)["src"]), ZERO)
        return visit_of(st, *k), k
    raise AssertionError(op)


def argument(c):
    """the number passed to the call"""
    for e in c.st.log:
        if is_tag(e, "arg"):
            return c.st.norm(e[1])
    return ZERO


def context_of(c, x):
    """(parent id, number of siblings to the right) of the cursor's node, None for a root"""
    st = c.st
    p = c.orig_parent(x)
    if p is None:
        up = getf(st, x, "up")
        if isinstance(up, Lazy):
            H.force_up(st, x)
            up = getf(st, x, "up")
        if up == NONE:
            return None
        p = c.orig_parent(x)
    if rec(st, p)["kids"] != "exp":
        H.expand_mid(st, p, x)
    a, b = rec(st, p)["midlen"]
    return p, b


def vis_events(L, X):
    if L in NUM:
        return [("note", const(NUM[L])), ("see",) + tuple(X), ("see",) + tuple(X)]
    return [("note", ZERO)]


def explore(prog, kind, frozen=False):
    """-> (findings, stats)"""
    W = World(kind)
    pre = "tw_" if kind == "tree" else "fw_"
    finds, states, todo = [], {}, []
    stats = {"paths": 0, "steps": 0, "loops": 0, "fns": set(), "checks": 0, "models": set(), "states": 0, "transitions": 0}
    edges = set()
    pend = []

    def add(key, frm, op):
        if key.k not in states:
            if len(states) > 60:
                raise Inconclusive("too many cursor states")
            states[key.k] = key
            todo.append(key)
        edges.add((frm.show() if frm else "start", op, key.show()))

    def run(pr):
        f, s = run_probe(prog, pr)
        finds.extend(f)
        for k in ("paths", "steps", "loops", "checks"):
            stats[k] += s[k]
        stats["fns"] |= s["fns"]
        stats["models"] |= s.get("models", set())

    def after(c, v, L, X, empty, owner):
        """canonical state at exit"""
        st = c.st
        out = []
        s = ser(W, c.ip, st, v, owner, out)
        if len(out) != 1:
            c.bad("cursor", "the cursor does not hold one path")
            return None
        cur = out[0]
        if (cur is None) != (X is None):
            c.bad("cursor", "after this call the cursor %s" % ("lost its node" if cur is None else "is still in the tree"))
            return None
        if cur is not None:
            S, i = rec(st, cur)["src"]
            if st.norm_seq(S) != st.norm_seq(X[0]) or not st.must_eq(i, X[1]):
                c.bad("cursor", "after this call the cursor is on %s" % H.nm(st, cur))
                return None
        return Key(L.rstrip("!"), s, empty)

    def init_check(c):
        st = c.st
        c.context_of = lambda x: context_of(c, x)
        o = c.ent["t"]
        c.roots = [o]
        empty = False
        if kind == "tree":
            X = rec(st, o)["src"]
        else:
            empty = st.decide("eq0", st.deg("t", ZERO))
            X = None if empty else (("k", "t", ZERO), ZERO)
        L = "Over" if X is None else visit_of(st, *X)
        c.saw([])
        key = after(c, c.val, L, X, empty, o)
        if key is not None:
            pend.append((key, None, "from"))

    mk = (lambda b: [b.tree("t")]) if kind == "tree" else (lambda b: [b.forest("t")])
    run(Probe(pre + "from", ["P15", "P16"], mk, init_check, rules=RULES))

    def flush():
        for k, f, op in pend:
            add(k, f, op)
        pend[:] = []
    flush()
    if not states and not finds:
        raise Inconclusive("no initial cursor state")

    def transition(key, op):
        ctx = {}

        def setup(b):
            st = b.st
            owner = b.root("o", hidden=(kind == "forest"))
            ctx["o"] = owner
            fr = []

            def front():
                if not fr:
                    H.force_kids(st, owner)
                    fr.append(getf(st, owner, "head").f[0].r)
                return fr[0]
            if kind == "forest" and key.empty:
                st.assume_eq(st.deg("o", ZERO), ZERO)
            elif kind == "forest":
                st.assume_ge0(st.deg("o", ZERO) - 1)
            cur = None
            if key.logical != "Over":
                cur = b.node("x")
                d = st.deg("x", ZERO)
                if key.logical == "Leaf":
                    st.assume_eq(d, ZERO)
                else:
                    st.assume_ge0(d - 1)
            ctx["x"] = cur
            st.ghost = dict(st.ghost)
            st.ghost["lazyvec"] = W.expand
            ty = b.tyf(lambda t: t.k == "adt" and t.path.endswith("TreeWalk" if kind == "tree" else "ForestWalk") and "opq::Elem" in t.name, "cursor")
            w = b.obj("w", ty, unser(W, b, key.value, cur, owner, front))
            ctx["w"] = ("o", "w")
            args = [w]
            if op in ("to_child", "to_sib"):
                n = sym("n")
                st.assume_ge0(n)
                st.event("arg", n)
                args.append(n)
            return args

        def check(c):
            st = c.st
            c.context_of = lambda x: context_of(c, x)
            L, X = expected(W, c, key, op, ctx["o"], ctx["x"], argument(c))
            got = vis_events(L.rstrip("!"), X)
            if op in ("forward", "revisit", "get"):
                evs = got
            elif op == "get_parent":
                x = ctx["x"]
                if x is None:
                    p = None
                elif key.logical == "Past":
                    p = X
                else:
                    p = W.visible_parent(st, x)
                    p = None if p is None else rec(st, p)["src"]
                evs = [("note", ZERO) if p is None else ("see",) + tuple(p)] + got
            elif L == "Leaf!":
                evs = [("note", ZERO)] + got
            else:
                evs = got + got
            c.saw(evs)
            nk = after(c, st.mem[ctx["w"]], L, X, key.empty, ctx["o"])
            if nk is not None:
                pend.append((nk, key, op))
                stats["transitions"] += 1
        run(Probe("%s%s @%s" % (pre, op, key.show()), ["P15", "P16"], setup, check, opts={"fn": pre + op, "frozen": frozen and op in ("get", "get_parent")}, rules=RULES))

    while todo:
        key = todo.pop(0)
        for op in OPS:
            transition(key, op)
            flush()
            if len(finds) > 40:
                return finds, stats, edges, states
    stats["states"] = len(states)
    return finds, stats, edges, states


def job(a):
    import mir
    dump, kind, frozen = a
    try:
        prog = mir.Program(dump)
        H.set_layout(H.Layout(prog))
        f, s, e, st = explore(prog, kind, frozen)
        return kind, f, s, sorted(map(str, e)), sorted(str(k[0]) for k in st), None
    except Exception as e:
        import traceback
        return kind, [], {}, [], [], "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])


P15_OPS = ("from", "forward", "next", "get", "get_parent")


def check(ws, pid, tier):
    import multiprocessing
    dump = ws.dump_probes(ws.compile_crate())
    with multiprocessing.Pool(2) as pool:
        res = pool.map(job, [(dump, "tree", pid == "P24"), (dump, "forest", pid == "P24")])
    cov = {"cursor_states": 0, "transitions_checked": 0, "abstract_steps": 0, "loop_invariants": 0, "entry_points": 0}
    viol, fns, models, edges = [], set(), set(), {}
    for kind, finds, s, e, sts, err in res:
        if err:
            viol.append(("walk-%s|analysis" % kind, "cursor over a %s: analysis failed: %s" % (kind, err)))
            continue
        cov["cursor_states"] += s["states"]
        cov["transitions_checked"] += s["transitions"]
        cov["abstract_steps"] += s["steps"]
        cov["loop_invariants"] += s["loops"]
        cov["entry_points"] += len(OPS) + 1
        fns |= s["fns"]
        models |= s["models"]
        edges[kind] = e
        for f in finds:
            op = f.probe.split(" ")[0][3:]
            if pid == "P15" and op not in P15_OPS:
                continue
            if pid == "P24" and (op not in ("get", "get_parent") or f.rule not in ("shared-write", "analysis", "anchor")):
                continue
            viol.append(("%s|%s|%s" % (f.probe, f.rule, f.where), "%s: [%s] %s  at %s" % (f.probe, f.rule, f.msg, f.where)))
    cov["transition_kinds"] = edges
    cov["functions_analysed"] = len(fns)
    cov["functions"] = sorted(x.replace("opq::Elem", "T") for x in fns)
    cov["std_models_used"] = sorted(models)
    return {"coverage": cov, "violations": viol, "names": ["%s_%s" % (p, o) for p in ("tw", "fw") for o in ("from",) + OPS]}


RULES = {}
