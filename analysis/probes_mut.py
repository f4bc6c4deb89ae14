"""Mutators of Node, Tree and Forest."""
from core import *
from spec import Probe

MUT = ["P01", "P02", "P03", "P04", "P05", "P11"]
PROBES = []


def probe(name, setup, check, props=MUT, **kw):
    PROBES.append(Probe(name, props, setup, check, **kw))


def root_panics(c):
    """siblings of a root do not exist: refusing is documented behaviour"""
    return c.is_root("a")


# ---------------------------------------------------------------- push / pop / splice, on a node, a tree, a forest
def push(recv, arg, where):
    def setup(b):
        return [recv(b), b.tree("t")]

    def check(c):
        t = c.whole("t")
        c.kids("a", [c.all("a"), t] if where == "back" else [t, c.all("a")])
    return setup, check


def pop(recv, where):
    def setup(b):
        return [recv(b)]

    def check(c):
        if c.empty("a"):
            c.none()
            return
        d = c.deg("a")
        v = c.some()
        if where == "front":
            c.tree_is(v, c.child("a", ZERO))
            c.kids("a", [c.part("a", ONE, d)])
        else:
            c.tree_is(v, c.child("a", d - 1))
            c.kids("a", [c.part("a", ZERO, d - 1)])
    return setup, check


def splice(recv, where):
    def setup(b):
        return [recv(b), b.forest("f")]

    def check(c):
        c.gone("f")
        c.kids("a", [c.all("a"), c.all("f")] if where == "back" else [c.all("f"), c.all("a")])
    return setup, check


for pre, recv in (("node", lambda b: b.pin("a")), ("tree", lambda b: b.treeref("a")), ("forest", lambda b: b.forestref("a"))):
    probe(pre + "_push_back", *push(recv, "t", "back"))
    probe(pre + "_push_front", *push(recv, "t", "front"))
    probe(pre + "_pop_front", *pop(recv, "front"))
    probe(pre + "_pop_back", *pop(recv, "back"))
    probe(pre + "_prepend", *splice(recv, "front"))
    probe(pre + "_append", *splice(recv, "back"))


# ---------------------------------------------------------------- siblings
def ins(where):
    def setup(b):
        return [b.pin("a"), b.tree("t")]

    def check(c):
        x = c.context("a")
        if x is None:
            c.bad("order", "returned without inserting next to a root")
            return
        p, L, R = x
        a, t = c.whole("a"), c.whole("t")
        c.around("a", L + ([t, a] if where == "prev" else [a, t]) + R)
    return setup, check


probe("node_insert_prev_sib", *ins("prev"), panics=root_panics)
probe("node_insert_next_sib", *ins("next"), panics=root_panics)


def detach_check(c):
    x = c.context("a")
    if x is None:
        c.bad("order", "returned without detaching a root")
        return
    p, L, R = x
    c.tree_is(c.val, c.whole("a"))
    c.around("a", L + R)


probe("node_detach", lambda b: [b.pin("a")], detach_check, panics=root_panics)


# ---------------------------------------------------------------- construction
def new_check(kind):
    def check(c):
        v = c.val
        c.new_root(v, ("e", "d", ZERO) if kind == "tree" else None)
    return check


probe("tree_new", lambda b: [("e", "d", ZERO)], new_check("tree"))
probe("forest_new", lambda b: [], new_check("forest"))


def abandon_check(c):
    nid = c.ent["a"]
    c.root_of(c.b.objs[0], "a new root with the datum of the old one", datum=("e", "a", ZERO))
    c.forest_is(c.val, nid)


probe("tree_abandon", lambda b: [b.treeref("a")], abandon_check, props=list(MUT) + ["P23"])


# ---------------------------------------------------------------- release
def gone_check(name):
    def check(c):
        c.gone(name)
        c.released([c.whole(name)])
    return check


probe("drop_tree", lambda b: [b.tree("a")], gone_check("a"), props=["P05"], opts={"prove": "tree"})
probe("drop_forest", lambda b: [b.forest("a")], gone_check("a"), props=["P05"], opts={"prove": "forest"})
