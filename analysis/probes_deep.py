"""Deep clones of nodes, trees, forests and handles."""
from core import *
import heap as H
from spec import Probe

PROBES = []


def copied(kind):
    def check(c):
        st = c.st
        if c.val != ("deep", kind, ("a", ZERO)):
            c.bad("copy", "the result is not the collected copy of the whole %s" % kind)
        c.saw([], tags=("see", "note", "flag", "look", "poke", "conv"))
    return check


def probe(name, setup, kind, props=("P22",), fn=None):
    PROBES.append(Probe(name, list(props), setup, copied(kind), main="P22", opts={"deep": True, "fn": fn or name}))


probe("dc_node", lambda b: [b.noderef("a", hidden=False)], "tree")
probe("dc_node_forest", lambda b: [b.noderef("a")], "forest")
probe("dc_tree", lambda b: [b.treeref("a")], "tree")
probe("dc_forest", lambda b: [b.forestref("a")], "forest")


def rc_probes():
    for storage in ("Scattered", "Piled"):
        for child in (True, False):
            for borrow in (None, "r", "w"):
                def setup(b, storage=storage, child=child, borrow=borrow):
                    return [b.ref("h", H.L.rcnode, b.rc("a", storage, child, **({"borrow": borrow} if borrow else {})))]
                name = "dc_rc.%s.%s%s" % (storage.lower(), "child" if child else "root", ".borrowed-" + borrow if borrow else "")
                ok = copied("tree")

                def check(c, ok=ok, borrow=borrow):
                    if borrow == "w":
                        c.bad("borrow", "goes ahead although the node is exclusively borrowed")
                    ok(c)
                PROBES.append(Probe(name, ["P22", "P26"], setup, check, main="P22", panics=(lambda c: True) if borrow else None,
                                    opts={"deep": True, "fn": "dc_rc"}, borrowed=bool(borrow)))


rc_probes()
