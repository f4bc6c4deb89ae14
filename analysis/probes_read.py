"""Reading: parent, counts, ends, data."""
from core import *
import heap as H
from heap import rec
from spec import Probe

PROBES = []


def probe(name, setup, check, props, **kw):
    kw.setdefault("main", props[0])
    PROBES.append(Probe(name, list(props), setup, check, **kw))


def parent(c):
    p = c.orig_parent(c.ent["a"])
    if p is None or c.is_hidden(p):
        c.none()
    else:
        c.node_is(c.some(), ("seg", ("anc", c.ent["a"]), ZERO, ONE))


probe("visit_node", lambda b: [b.noderef("a")], lambda c: c.saw([("see", "a", ZERO)]), ["P15"])


probe("node_parent", lambda b: [b.noderef("a")], parent, ["P11"])


def degree(c):
    c.num(c.deg("a"))


def count(c):
    c.num(c.st.cnt("a", ZERO))


def fcount(c):
    c.num(c.st.cnt("a", ZERO) - 1)


def no_child(c):
    c.flag(c.empty("a"))


for pre, recv, cnt in (("node", lambda b: b.noderef("a"), count), ("forest", lambda b: b.forestref("a"), fcount)):
    probe(pre + "_degree", lambda b, r=recv: [r(b)], degree, ["P02"])
    probe(pre + "_count", lambda b, r=recv: [r(b)], cnt, ["P02", "P11"])
    probe(pre + "_no_child", lambda b, r=recv: [r(b)], no_child, ["P02"])


def end(where, ret):
    def check(c):
        e = c.empty("a")
        item = c.child("a", ZERO if where == "front" else c.deg("a") - 1)
        if ret:
            c.none() if e else c.node_is(c.some(), item)
        else:
            c.saw([("flag", False)] if e else [("see", item[1], item[2])])
    return check


for w in ("front", "back"):
    probe("node_" + w, lambda b: [b.noderef("a")], end(w, True), ["P01", "P11"])
    probe("forest_" + w, lambda b: [b.forestref("a")], end(w, True), ["P01", "P11"])
    probe("node_%s_mut" % w, lambda b: [b.noderef("a")], end(w, False), ["P01", "P11"])
    probe("tree_%s_mut" % w, lambda b: [b.treeref("a")], end(w, False), ["P01", "P11"])
    probe("forest_%s_mut" % w, lambda b: [b.forestref("a")], end(w, False), ["P01", "P11"])


def itself(ret):
    def check(c):
        if ret:
            c.node_is(c.val, c.whole("a"))
        else:
            c.saw([("see", "a", ZERO)])
    return check


probe("tree_root", lambda b: [b.treeref("a")], itself(True), ["P11"])
probe("tree_deref", lambda b: [b.treeref("a")], itself(True), ["P11"])
probe("tree_root_mut", lambda b: [b.treeref("a")], itself(False), ["P11"])


def uses(tag):
    def check(c):
        c.uses([(tag, ("e", "a", ZERO))])
    return check


probe("node_data", lambda b: [b.noderef("a")], uses("look"), ["P11"])
probe("node_data_mut", lambda b: [b.pin("a")], uses("poke"), ["P11"])
probe("forest_top_parent", lambda b: [b.forestref("a")], lambda c: c.flag(True), ["P11"])


def child_parent(c):
    if c.empty("a"):
        c.none()
    else:
        c.node_is(c.some(), c.whole("a"))


probe("node_child_parent", lambda b: [b.noderef("a")], child_parent, ["P11"])


def forest_child_parent(c):
    S = c.kseq("a")
    if c.empty("a"):
        c.saw([])
    elif c.st.decide("eq0", c.st.deg(S, ZERO)):
        c.saw([("see", S, ZERO)])
    else:
        c.saw([("see", S, ZERO), ("see", ("k", S, ZERO), ZERO), ("see", S, ZERO)])


probe("forest_child_parent", lambda b: [b.forestref("a")], forest_child_parent, ["P11"])
