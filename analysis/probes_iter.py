"""Sibling iterators."""
from core import *
import heap as H
from spec import Probe

PROBES = []
IOTA = atom(("iota",))


def probe(name, setup, check, props=("P08", "P11"), **kw):
    kw.setdefault("main", props[0])
    PROBES.append(Probe(name, list(props), setup, check, **kw))


def run(n, *ts):
    return ("run", tuple(ts), n)


def visits(S, n):
    return [run(n, ("note", n - IOTA), ("see", S, IOTA)), ("note", ZERO), ("flag", True), ("flag", True), ("note", ZERO)]


def kids(c):
    n = c.deg("a")
    c.saw(visits(c.kseq("a"), n))


def once(c):
    c.saw([("note", ONE), ("see", "a", ZERO), ("note", ZERO), ("flag", True), ("flag", True), ("note", ZERO)])


probe("it_node", lambda b: [b.noderef("a")], kids)
probe("it_node_mut", lambda b: [b.pin("a")], kids)
probe("it_tree", lambda b: [b.treeref("a")], kids)
probe("it_tree_mut", lambda b: [b.treeref("a")], kids)
probe("it_forest", lambda b: [b.forestref("a")], kids)
probe("it_forest_mut", lambda b: [b.forestref("a")], kids)
probe("it_once", lambda b: [b.noderef("a")], once)
probe("it_once_mut", lambda b: [b.pin("a")], once)


def into_forest(c):
    c.gone("a")
    c.released([c.whole("a")])
    kids(c)


def into_tree(c):
    c.gone("a")
    c.released([c.whole("a")])
    once(c)


def partial(c):
    c.gone("a")
    c.released([c.whole("a")])


probe("it_into_forest", lambda b: [b.forest("a")], into_forest, props=("P08", "P05", "P23"))
probe("it_into_tree", lambda b: [b.tree("a")], into_tree, props=("P08", "P05", "P23"))
probe("it_into_partial", lambda b: [b.forest("a")], partial, props=("P08", "P05", "P23"))


def rc_kids(c):
    n = c.deg("a")
    c.saw([run(n, ("note", n - IOTA, n - IOTA), ("see", c.kseq("a"), IOTA)), ("note", ZERO, ZERO), ("flag", True)])


for storage in ("Scattered", "Piled"):
    for child in (True, False):
        PROBES.append(Probe("it_rc.%s.%s" % (storage.lower(), "child" if child else "root"), ["P08", "P06", "P26", "P10"],
                            lambda b, s=storage, ch=child: [b.ref("h", H.L.rcnode, b.rc("a", s, ch))], rc_kids, opts={"fn": "it_rc"}, main="P08"))


# ---------------------------------------------------------------- editing while iterating
ED = ("P09", "P01", "P02", "P03", "P04")


def edited(kind, rc=False, arg=None):
    """after k plain steps node k was edited, then the rest is visited"""
    def check(c):
        n, S = c.deg("a"), c.kseq("a")
        k = c.edit_pos(S)
        if arg:
            if k is None or arg == "f":
                c.gone(arg)
            if k is None and arg == "t":
                c.released([c.whole(arg)])
            if k is None and arg == "f":
                c.released([c.whole(arg)])
        if k is None:
            # the list ended before an edit was made
            c.saw([] if rc else [run(n, ("see", S, IOTA))])
            return
        seen = [] if rc else [run(k, ("see", S, IOTA))]
        rest = n - k - 1
        tail = [run(rest, ("note", rest - IOTA, rest - IOTA) if rc else ("note", rest - IOTA), ("see", S, k + 1 + IOTA))]
        tail += [("note", ZERO, ZERO), ("flag", True)] if rc else [("note", ZERO), ("flag", True), ("flag", True), ("note", ZERO)]
        c.saw(seen + [("see", S, k), ("flag", True)] + tail)
        sub = ("seg", ("k", S, k), ZERO, c.st.deg(S, k))

        def mod(*items):
            c.kids("a", [c.part("a", ZERO, k), ("mod", S, k, None, items), c.part("a", k + 1, n)])
        if kind == "detach":
            c.kids("a", [c.part("a", ZERO, k), c.part("a", k + 1, n)])
            if not rc:
                c.released([c.child("a", k)])
            else:
                c.unowned([c.child("a", k)])
        elif kind == "prev":
            c.kids("a", [c.part("a", ZERO, k), c.whole("t"), c.part("a", k, n)])
        elif kind == "next":
            c.kids("a", [c.part("a", ZERO, k + 1), c.whole("t"), c.part("a", k + 1, n)])
        elif kind == "push_back":
            mod(sub, c.whole("t"))
        elif kind == "push_front":
            mod(c.whole("t"), sub)
        elif kind == "append":
            mod(sub, c.all("f"))
        elif kind == "pop":
            d = c.st.deg(S, k)
            if not c.st.decide("eq0", d):
                mod(("seg", ("k", S, k), ONE, d))
                c.released([("seg", ("k", S, k), ZERO, ONE)])
    return check


for kind, arg in (("detach", None), ("prev", "t"), ("next", "t"), ("push_back", "t"), ("push_front", "t"), ("append", "f"), ("pop", None)):
    probe("ed_" + kind, lambda b, arg=arg: [b.pin("a")] + ([b.tree("t")] if arg == "t" else [b.forest("f")] if arg else []),
          edited(kind, arg=arg), props=ED)


def all_out(c):
    n, S = c.deg("a"), c.kseq("a")
    c.saw([run(n, ("see", S, IOTA))])
    c.kids("a", [])
    c.released([c.all("a")])


probe("ed_detach_all", lambda b: [b.pin("a")], all_out, props=ED)


# ---------------------------------------------------------------- RcNode: editing, losing nodes
def rcprobe(fn, setup, check, props, uniform=True, **kw):
    for storage in ("Scattered", "Piled"):
        for child in (True, False):
            def su(b, s=storage, ch=child):
                h = b.rc("a", s, ch)
                if uniform:
                    b.uniform(s)
                return setup(b, h)
            PROBES.append(Probe("%s.%s.%s" % (fn, storage.lower(), "child" if child else "root"), list(props), su, check, opts={"fn": fn}, main=props[0], **kw))


def plain_tree(b, arg):
    if not arg:
        return []
    t = b.tree(arg)
    b.plain(arg)
    return [t]


for kind, arg in (("detach", None), ("prev", "t"), ("next", "t"), ("push_back", "t")):
    rcprobe("edrc_" + kind, lambda b, h, arg=arg: [b.ref("h", H.L.rcnode, h)] + plain_tree(b, arg),
            edited(kind, rc=True, arg=arg), props=ED + ("P10", "P06", "P26"))


def losing(kind):
    def check(c):
        n, S = c.deg("a"), c.kseq("a")
        st = c.st
        k = c.steps_before_flag(S)
        if kind == "parent":
            alive = c.survives("a")
            if not alive:
                c.gone("a")
                c.unowned([c.all("a")])
        if k is None:
            c.saw([run(n, ("see", S, IOTA))])
            return
        head = [run(k, ("see", S, IOTA)), ("flag", True)]
        one = [("see", S, k)]
        if st.decide("eq0", n - k):         # nothing is pending
            one = []
        rest = [run(n - k, ("see", S, k + IOTA))]
        if kind == "parent":
            tail = rest if alive else one
        elif kind == "front":
            if not c.empty("a"):
                c.kids("a", [c.part("a", ONE, n)])
                c.unowned([c.child("a", ZERO)])
            tail = one if st.decide("eq0", k) else rest
        elif kind == "back":
            if not c.empty("a"):
                c.kids("a", [c.part("a", ZERO, n - 1)])
                c.unowned([c.child("a", n - 1)])
            if not one or st.decide("eq0", n - 1 - k):
                tail = one
            else:
                tail = [run(n - 1 - k, ("see", S, k + IOTA))]
        elif kind == "next":
            if one:
                c.kids("a", [c.part("a", ZERO, k), c.part("a", k + 1, n)])
                c.unowned([c.child("a", k)])
            tail = one
        c.saw(head + tail + [("flag", True)])
    return check


for kind in ("parent", "front", "back", "next"):
    rcprobe("lose_" + kind, lambda b, h, kind=kind: [h if kind == "parent" else b.ref("h", H.L.rcnode, h)], losing(kind), ("P10", "P06", "P04", "P05", "P26"), uniform=False)

for name, kind in (("lose_parent_over", "parent"), ("lose_parent_twin", "parent"), ("lose_next_over", "next")):
    rcprobe(name, lambda b, h, kind=kind: [h if kind == "parent" else b.ref("h", H.L.rcnode, h)], losing(kind), ("P10", "P06", "P04", "P05", "P26"), uniform=False)


def twin(c):
    n, S = c.deg("a"), c.kseq("a")
    evs = [e for e in c.st.log if e[0] in ("see", "flag")]
    if len(evs) == 2:
        k = c.st.norm(evs[0][2])
        c.saw([("see", S, k), ("see", S, k)])
    elif evs:
        c.saw([("flag", True)])


rcprobe("twin_rc", lambda b, h: [b.ref("h", H.L.rcnode, h)], twin, ("P10", "P06"), uniform=False)
