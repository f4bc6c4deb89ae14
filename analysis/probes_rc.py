"""RcNode and WeakNode: handles, in both storages, for children and roots, with and without dynamic borrows."""
from core import *
import heap as H
from spec import Probe
from models import qlen

MUT = ["P01", "P02", "P03", "P04", "P06", "P11", "P26"]
PROBES = []


def probe(fn, setup, check, props, panics=None, **kw):
    """one variant per storage and position; `setup(b, rc)` gets a function that makes the handle"""
    for storage in ("Scattered", "Piled"):
        for child in (True, False):
            def su(b, storage=storage, child=child):
                return setup(b, lambda name, **k: b.rc(name, storage, child, **k))
            opts = dict(kw.get("opts", {}), fn=fn)
            PROBES.append(Probe("%s.%s.%s" % (fn, storage.lower(), "child" if child else "root"), props, su, check,
                                panics=panics, opts=opts))


def shared(b, rc):
    return [b.ref("h", H.L.rcnode, rc("a"))]


def with_borrow(fn, setup_extra, mutates, props=("P26",)):
    """while the node is borrowed by a guard, readers may share but nobody gets exclusive access"""
    for mode in ("r", "w"):
        def setup(b, rc, mode=mode):
            return [b.ref("h", H.L.rcnode, rc("a", borrow=mode))] + setup_extra(b)

        def check(c, mode=mode):
            if mutates or mode == "w":
                c.bad("borrow", "goes ahead although the node is %s borrowed" % ("exclusively" if mode == "w" else "already"))

        for storage in ("Scattered", "Piled"):
            for child in (True, False):
                def su(b, setup=setup, storage=storage, child=child):
                    return setup(b, lambda name, **k: b.rc(name, storage, child, **k))
                PROBES.append(Probe("%s.%s.%s.borrowed-%s" % (fn, storage.lower(), "child" if child else "root", mode), list(props), su, check,
                                    panics=lambda c, may=mutates or mode == "w": may, opts={"fn": fn}, borrowed=True))


# ---------------------------------------------------------------- reading
def is_a(v):
    return lambda c: c.handle_is(c.val, c.whole("a"))


def same_handle(c):
    c.handle_is(c.val, c.whole("a"))


probe("rc_clone", shared, same_handle, ["P06"])


def drop_check(c):
    if c.survives("a"):
        return
    c.gone("a")
    c.unowned([c.all("a")])


probe("rc_drop", lambda b, rc: [rc("a")], drop_check, ["P06", "P04", "P05"], opts={"prove": "rc"})
probe("rc_is_root", shared, lambda c: c.flag(not c.is_child("a")), ["P11", "P26"])
probe("rc_has_no_child", shared, lambda c: c.flag(c.empty("a")), ["P02", "P26"])
probe("rc_degree", shared, lambda c: c.num(c.deg("a")), ["P02", "P26"])
probe("rc_node_count", shared, lambda c: c.num(c.st.cnt("a", ZERO)), ["P02", "P26"])
probe("rc_data", shared, lambda c: c.uses([("look", ("e", "a", ZERO))]), ["P26"])
probe("rc_data_mut", shared, lambda c: c.uses([("poke", ("e", "a", ZERO))]), ["P26"])
probe("rc_node", shared, lambda c: c.uses([("look", ("e", "a", ZERO))]), ["P26"])
probe("rc_node_mut", shared, lambda c: c.uses([("poke", ("e", "a", ZERO))]), ["P26"])


def end_check(where):
    def check(c):
        if c.empty("a"):
            return c.none()
        c.handle_is(c.some(), c.child("a", ZERO if where == "front" else c.deg("a") - 1))
    return check


probe("rc_front", shared, end_check("front"), ["P06", "P26"])
probe("rc_back", shared, end_check("back"), ["P06", "P26"])


def parent_check(c):
    p = c.orig_parent(c.ent["a"])
    if p is None:
        return c.none()
    v = c.some()
    if v is not None and c.handle_id(v) != p:
        c.bad("order", "the result is not the parent")


probe("rc_parent", shared, parent_check, ["P06", "P11", "P26"])


# ---------------------------------------------------------------- structure
def tree_arg(b):
    b.plain("t")
    return [b.tree("t")]


def forest_arg(b):
    b.plain("f")
    return [b.forest("f")]


def sh(extra):
    return lambda b, rc: shared(b, rc) + extra(b)


def push(where):
    def check(c):
        t = c.whole("t")
        c.kids("a", [c.all("a"), t] if where == "back" else [t, c.all("a")])
    return check


def pop(where):
    def check(c):
        if c.empty("a"):
            return c.none()
        d = c.deg("a")
        v = c.some()
        i = ZERO if where == "front" else d - 1
        c.handle_is(v, c.child("a", i))
        c.root_now(v)
        c.kids("a", [c.part("a", ONE, d)] if where == "front" else [c.part("a", ZERO, d - 1)])
    return check


def splice(where):
    def check(c):
        c.gone("f")
        c.kids("a", [c.all("a"), c.all("f")] if where == "back" else [c.all("f"), c.all("a")])
    return check


def ins(where):
    def check(c):
        x = c.context("a")
        if x is None:
            return c.bad("order", "returned without inserting next to a root")
        p, L, R = x
        a, t = c.whole("a"), c.whole("t")
        c.around("a", L + ([t, a] if where == "prev" else [a, t]) + R)
    return check


def detach(c):
    x = c.context("a")
    if x is None:
        return c.bad("order", "returned without detaching a root")
    p, L, R = x
    c.around("a", L + R)
    c.root_now(c.b.st0_handle)


def is_root(c):
    return c.is_root("a")


def detach_setup(b, rc):
    h = rc("a")
    b.st0_handle = h
    return [b.ref("h", H.L.rcnode, h)]


NOTHING = lambda b: []
probe("rc_push_back", sh(tree_arg), push("back"), MUT)
probe("rc_push_front", sh(tree_arg), push("front"), MUT)
probe("rc_pop_front", shared, pop("front"), MUT)
probe("rc_pop_back", shared, pop("back"), MUT)
probe("rc_prepend", sh(forest_arg), splice("front"), MUT)
probe("rc_append", sh(forest_arg), splice("back"), MUT)


def stream_arg(b):
    """the caller's iterator: any number of trees"""
    b.plain("q")
    n = qlen(b.st, "q")
    b.st.assume_ge0(n)
    return [("qt", "q", ZERO)]


def extended(c):
    c.kids("a", [c.all("a"), ("seg", "q", ZERO, qlen(c.st, "q"))])


probe("rc_extend", sh(stream_arg), extended, MUT)
probe("rc_insert_prev_sib", sh(tree_arg), ins("prev"), MUT, panics=is_root)
probe("rc_insert_next_sib", sh(tree_arg), ins("next"), MUT, panics=is_root)
probe("rc_detach", detach_setup, detach, MUT, panics=is_root)

for f, extra, mut in (("rc_is_root", NOTHING, False), ("rc_has_no_child", NOTHING, False), ("rc_degree", NOTHING, False),
                      ("rc_node_count", NOTHING, False), ("rc_data", NOTHING, False), ("rc_data_mut", NOTHING, True),
                      ("rc_front", NOTHING, False), ("rc_back", NOTHING, False), ("rc_parent", NOTHING, False),
                      ("rc_push_back", tree_arg, True), ("rc_push_front", tree_arg, True), ("rc_pop_front", NOTHING, True),
                      ("rc_pop_back", NOTHING, True), ("rc_prepend", forest_arg, True), ("rc_append", forest_arg, True),
                      ("rc_insert_prev_sib", tree_arg, True), ("rc_insert_next_sib", tree_arg, True), ("rc_detach", NOTHING, True)):
    with_borrow(f, extra, mut)


# ---------------------------------------------------------------- owners
def from_tree(c):
    c.handle_is(c.val, c.whole("t"))


def rc_from_tree_setup(storage):
    def setup(b):
        b.handles()
        b.plain("t")
        return [b.tree("t", fixkind=storage)]
    return setup


for storage in ("Scattered", "Piled"):
    PROBES.append(Probe("rc_from_tree." + storage.lower(), ["P06", "P23"], rc_from_tree_setup(storage), from_tree, opts={"fn": "rc_from_tree"}))


def into_tree(c):
    c.tree_is(c.val, c.whole("a"))


probe("rc_into_tree", lambda b, rc: [rc("a")], into_tree, ["P06", "P23"], panics=lambda c: c.is_child("a"))


def downgrade(c):
    c.weak_is(c.val, "a")


probe("rc_downgrade", shared, downgrade, ["P06", "P07"])


def upgrade(alive):
    def check(c):
        if not alive:
            return c.none()
        c.handle_is(c.some(), c.whole("a"))
    return check


for storage in ("Scattered", "Piled"):
    for alive in ("child", "root", "gone"):
        def su(b, storage=storage, alive=alive):
            return [b.ref("h", H.L.weaknode, b.weak("a", storage, alive != "gone", alive == "child"))]

        def su2(b, storage=storage, alive=alive):
            return [b.weak("a", storage, alive != "gone", alive == "child")]
        nm = "%s.%s" % (storage.lower(), alive)
        PROBES.append(Probe("weak_upgrade." + nm, ["P06", "P07"], su, upgrade(alive != "gone"), opts={"fn": "weak_upgrade"}))
        PROBES.append(Probe("weak_drop." + nm, ["P06", "P07"], su2, lambda c: None, opts={"fn": "weak_drop"}))
