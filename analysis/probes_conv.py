"""Conversions between owners."""
from core import *
import heap as H
from spec import Probe

PROBES = []


def probe(fn, setup, check, props=("P23", "P05"), name=None, **kw):
    PROBES.append(Probe(name or fn, list(props), setup, check, main="P23", opts=dict(kw.get("opts", {}), fn=fn)))


def same_tree(c):
    c.tree_is(c.val, c.whole("a"))


def same_forest(c):
    c.forest_is(c.val, c.ent["a"])


def gone(c):
    c.gone("a")
    c.released([c.whole("a")])


for f in ("cv_walk_tree", "cv_step_tree"):
    probe(f, lambda b: [b.tree("a")], same_tree)
for f in ("cv_walk_forest", "cv_step_forest"):
    probe(f, lambda b: [b.forest("a")], same_forest)
probe("cv_drop_twalk", lambda b: [b.tree("a")], gone)
probe("cv_drop_fwalk", lambda b: [b.forest("a")], gone)
for storage in ("Scattered", "Piled"):
    def su(b, storage=storage):
        b.handles()
        b.plain("a")
        return [b.tree("a", fixkind=storage)]
    probe("cv_rc", su, same_tree, props=("P23", "P06", "P26"), name="cv_rc." + storage.lower())


def all_kids(c):
    c.gone("a")
    c.new_root(c.val, None, [c.all("a")])


probe("cv_collect", lambda b: [b.forest("a")], all_kids, props=("P23", "P05", "P01", "P02", "P03"))
