"""The - and / operators; clones of operands are opaque copies (their own property, P22)."""
from core import *
from spec import Probe

PROBES = []


def operand(b, n, kind):
    """the argument; a borrowed operand comes with the tree its clone will be"""
    if kind == "u":
        return UNIT
    make, ref = (b.tree, b.treeref) if kind.endswith("t") else (b.forest, b.forestref)
    if kind[0] != "r":
        return make(n)
    b.plain(n + "'")
    v = ref(n)
    b.copy(n, make(n + "'"))
    return v


def setup_of(kinds):
    def setup(b):
        return [operand(b, n, k) for n, k in zip("ab", kinds)]
    return setup


def src(n, k):
    return n + "'" if k[0] == "r" else n


def part(c, n, k):
    """what the operand contributes as children"""
    return c.whole(src(n, k)) if k.endswith("t") else c.all(src(n, k))


def to_forest(kinds):
    def check(c):
        ops = [(n, k) for n, k in zip("ab", kinds)]
        items = [part(c, n, k) for n, k in ops]
        roots = {c.ent[src(n, k)]: src(n, k) for n, k in ops if k.endswith("f")}
        rid = c.root_id(c.val)
        if rid is None:
            return
        if rid in roots:
            c.exp_kids[rid] = items
        else:
            c.new_root(c.val, None, items)
        for nid, n in roots.items():
            if nid != rid:
                c.gone(n)
    return check


def to_tree(kinds):
    def check(c):
        l, r = kinds
        a = src("a", l)
        if r == "u":
            c.tree_is(c.val, c.whole(a))
        else:
            n = c.root_id(c.val)
            if n is not None and n != c.ent[a]:
                c.bad("order", "the result is not the left operand's tree")
            c.kids(a, [c.all(a), part(c, "b", r)])
            if r.endswith("f"):
                c.gone(src("b", r))
    return check


def op(name, kinds, check):
    PROBES.append(Probe("op_%s_%s" % (name, "_".join(kinds)), ["P19", "P01", "P02", "P03", "P04", "P05", "P11"], setup_of(kinds), check(kinds), main="P19"))


for l in ("t", "rt"):
    op("neg", (l,), to_forest)
for l in ("t", "rt", "f", "rf"):
    for r in ("t", "rt") if l.endswith("t") else ("t", "rt", "f", "rf"):
        op("sub", (l, r), to_forest)
for l in ("t", "rt"):
    for r in ("t", "rt", "f", "rf", "u"):
        op("div", (l, r), to_tree)

PROBES.append(Probe("op_tr", ["P19", "P01", "P05"], lambda b: [("e", "d", ZERO)], lambda c: c.new_root(c.val, ("e", "d", ZERO)), main="P19"))
PROBES.append(Probe("op_fr", ["P19", "P01", "P11"], lambda b: [], lambda c: c.new_root(c.val, None), main="P19"))
