"""Breadth-first iterators: the queue discipline over opaque lists, the Split implementations, the initial queues, map()."""
from core import *
import heap as H
from models import vecs_in
from spec import Probe
from probes_iter import run, IOTA

PROBES = []


def probe(name, setup, check, props, **kw):
    kw.setdefault("main", props[0])
    PROBES.append(Probe(name, list(props), setup, check, **kw))


# ---------------------------------------------------------------- the queue
def queue(b):
    """the items k.. of a list of n >= k items"""
    k, n = sym("k"), atom(("s", "qlen_q"))
    b.st.assume_ge0(k)
    b.st.assume_ge0(n - k)
    return [("qi", "q", k)]


def lists(c, v):
    """what waits in the queue, without exhausted lists, in order"""
    out, st = [], c.st

    def put(x):
        if is_tag(x, "qi"):
            n = st.deg(x[1][1], x[1][2]) if is_tag(x[1], "k") else st.norm(atom(("s", "qlen_" + x[1])))
            if not st.decide("eq0", n - x[2]):
                out.append(("qi", st.norm_seq(x[1]), st.norm(x[2])))
        elif is_tag(x, "vec"):
            for it in st.mem[x]:
                if it[0] == "e":
                    put(it[1])
                elif it[0] == "rest":
                    out.append(("rest",))
                else:
                    raise Inconclusive("queue")
        elif isinstance(x, A):
            for y in x.f:
                put(y)
    put(v)
    return out


def waits(c, exp):
    act = lists(c, c.val)
    exp = [x for x in exp if x[0] != "qi" or not exhausted(c, x)]
    exp = [x if x[0] != "qi" else ("qi", c.st.norm_seq(x[1]), c.st.norm(x[2])) for x in exp]
    if act != exp:
        c.bad("queue", "the queue then is %r instead of %r" % (act, exp))


def exhausted(c, x):
    st = c.st
    n = st.deg(x[1][1], x[1][2]) if is_tag(x[1], "k") else st.norm(atom(("s", "qlen_" + x[1])))
    return st.decide("eq0", n - x[2])


def visited(c, rest):
    st = c.st
    k, n = st.norm(sym("k")), st.norm(atom(("s", "qlen_q")))
    if st.decide("eq0", n - k):
        c.saw([("flag", False), ("flag", False)])
        waits(c, rest)
        if rest:
            c.bad("queue", "None although lists are waiting")
        return
    c.saw([("look", ("e", "q", k)), ("note", st.deg("q", k), st.cnt("q", k) - 1)])
    waits(c, [("qi", "q", k + 1)] + rest + [("qi", ("k", "q", k), ZERO)])


def to_rest(c):
    """the first list was exhausted: the rest of the queue decides"""
    st = c.st
    if c.val != "rest":
        return False
    if not st.decide("eq0", sym("k") - atom(("s", "qlen_q"))):
        c.bad("queue", "the next item of the first list is passed over")
    c.saw([])
    for r, v in st.mem.items():
        if r[0] == "vec":
            left = [x for x in v if x[0] != "e" or not exhausted(c, x[1])]
            if left and [x[0] for x in left] != ["rest"]:
                c.bad("queue", "a list was added without a visit")
    return True


probe("q_step", queue, lambda c: visited(c, [("rest",)]), ["P12"], panics=to_rest)
probe("q_first", queue, lambda c: visited(c, []), ["P12"])


# ---------------------------------------------------------------- splitting a node
def splits(look):
    def check(c):
        n, S = c.deg("a"), c.kseq("a")
        c.saw([(look, ("e", "a", ZERO)), ("note", c.st.cnt("a", ZERO) - 1), run(n, ("note", n - IOTA), ("see", S, IOTA)), ("note", ZERO), ("flag", True),
               ("flag", True), ("note", ZERO)])
        if c.probe.name == "split_tree":
            c.gone("a")
            c.released([c.whole("a")])
    return check


probe("split_ref", lambda b: [b.noderef("a", hidden=False)], splits("look"), ["P12"])
probe("split_pin", lambda b: [b.pin("a", hidden=False)], splits("poke"), ["P12"])
probe("split_tree", lambda b: [b.tree("a")], splits("look"), ["P12", "P05"])


# ---------------------------------------------------------------- initial queues
def starts(children, forest=False, into=False):
    def check(c):
        st = c.st
        d, n = c.deg("a"), st.cnt("a", ZERO) - 1
        tail = [("note", ZERO), ("flag", True), ("flag", True), ("note", ZERO)]
        if children:
            c.saw([("note", d, n), run(d, ("note", d - IOTA), ("see", c.kseq("a"), IOTA))] + tail)
        else:
            c.saw([("note", ONE, n), ("note", ONE), ("see", "a", ZERO)] + tail)
        if into:
            c.gone("a")
            c.released([c.whole("a")])
    return check


for nm, mk, ch in (("node", lambda b: [b.noderef("a")], False), ("node_mut", lambda b: [b.noderef("a")], False), ("node_ch", lambda b: [b.noderef("a")], True),
                   ("node_ch_mut", lambda b: [b.noderef("a")], True), ("tree", lambda b: [b.treeref("a")], False), ("tree_mut", lambda b: [b.treeref("a")], False),
                   ("tree_ch", lambda b: [b.treeref("a")], True), ("tree_ch_mut", lambda b: [b.treeref("a")], True),
                   ("forest", lambda b: [b.forestref("a")], True), ("forest_mut", lambda b: [b.forestref("a")], True)):
    probe("bf_" + nm, mk, starts(ch), ["P12", "P11"])
probe("bf_tree_into", lambda b: [b.tree("a")], starts(False, into=True), ["P12", "P05"])
probe("bf_forest_into", lambda b: [b.forest("a")], starts(True, into=True), ["P12", "P05"])


# ---------------------------------------------------------------- map, wrap
def stream_args(b):
    d, n = sym("d"), sym("nn")
    b.st.assume_ge0(d)
    b.st.assume_ge0(n)
    b.st.assume_ge0(atom(("s", "qlen_v")))
    b.st.event("arg", d, n)
    return [("qv", "v", ZERO), d, n]


def streams(conv, size=True):
    def check(c):
        st = c.st
        N = st.norm(atom(("s", "qlen_v")))
        e = ("e", "v", IOTA)
        arg = [x for x in st.log if x[0] == "arg"][0]
        evs = ([("conv", e)] if conv else []) + [("look", ("cl", e) if conv else e), ("note", atom(("D", "v", IOTA)), atom(("W", "v", IOTA + 1)) - atom(("W", "v", IOTA)) - 1)]
        c.saw(([("note", arg[1], arg[2])] if size else []) + [run(N, *evs)], tags=("see", "note", "flag", "look", "poke", "conv"))
    return check


probe("map_tree", stream_args, streams(True), ["P12"])
probe("map_forest", stream_args, streams(True), ["P12"])
probe("wrap_tree", stream_args, streams(False), ["P12"])
probe("wrap_forest", stream_args, streams(False), ["P12"])
probe("wrap_tree_iter", stream_args, streams(False, False), ["P12"])
probe("wrap_forest_iter", stream_args, streams(False, False), ["P12"])
