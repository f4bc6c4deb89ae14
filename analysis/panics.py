"""P28: every call of an entry point into the caller's code, and every panic of the library itself, is also continued by
unwinding: cleanup blocks, drop glue and guards are interpreted, and what can still be reached afterwards is checked."""
import importlib
import multiprocessing
import os

from core import *
import heap as H
import shape
from heap import rec, getf, is_none, nm

# histories of several operations: every operation is analysed on its own here
SKIP = ("lose_",)
KEEP = ("links", "sizes", "root", "memory")
LINKS = ("up", "prev", "next", "head", "tail")


def gone(c, r):
    """a known object that was released: what it is called, or None"""
    st = c.st
    if r[0] == "n":
        if r not in st.mem or rec(st, r[1])["st"] != "live":
            return "the released node %s" % (nm(st, r[1]) if r in st.mem else r[1])
    elif r[0] in ("f", "l"):
        if ("s", r[1]) not in st.mem:
            return "released children"
    elif r[0] == "a":
        if r not in st.mem:
            return "released ancestors"
    return None


def held(st, S, i):
    return not st.must_eq(H.kappa(st, S, i), ZERO)


def reach(c):
    """everything the caller can still get at: what it lent to the call, and nodes it has handles to"""
    st = c.st
    owners = []
    for r, ty in c.b.objs:
        if r in st.mem:
            shape.owned(c.ip, st, ty, st.mem[r], owners)
    work, seen = [], set()

    def go(r, frm):
        g = gone(c, r)
        if g:
            c.bad("memory", "after the panic %s still points to %s" % (frm, g))
            return
        if r[0] in ("f", "l"):
            r = ("s", r[1])
        if r in seen:
            return
        seen.add(r)
        work.append(r)
    for kind, nid in owners:
        if kind != "weak":
            go(("n", nid), "a handle or tree of the caller")
    for k in list(st.mem):
        if k[0] == "n" and st.mem[k]["st"] == "live" and not st.mem[k].get("limbo"):
            r = st.mem[k]
            if not r.get("new") and held(st, *r["src"]) and not isinstance(r["rc"], Lazy) and st.norm(r["rc"]) != ZERO:
                go(k, "")
        if k[0] == "s" and not st.mem[k].get("limbo") and st.mem[k]["lo"] != st.mem[k]["hi"]:
            if held(st, st.mem[k]["S"], st.mem[k]["lo"]):
                go(k, "")
    # lent to the call
    for name, nid in c.ent.items():
        if name in c.b.lent:
            go(("n", nid), "the caller")
    while work:
        r = work.pop()
        if r[0] == "n":
            d = rec(st, r[1])
            for f in LINKS:
                v = getf(st, r[1], f)
                if not isinstance(v, Lazy) and not is_none(v):
                    go(st.nptr(v.f[0]).r, nm(st, r[1]) + "." + f)
        elif r[0] == "s":
            for f in ("up", "left", "right"):
                v = st.mem[r][f]
                if v is not None and not isinstance(v, Lazy) and not is_none(v):
                    go(st.nptr(v.f[0]).r, "a child" + "." + f)
        elif r[0] == "a":
            v = st.mem[r]["up"]
            if v is not None and not isinstance(v, Lazy) and not is_none(v):
                go(st.nptr(v.f[0]).r, "an ancestor")
            ch = st.mem[r]["child"]
            if ch is not None:
                go(st.root(ch), "an ancestor")
    return seen, owners


def check(c):
    st = c.st
    out = []

    def bad(rule, msg):
        if rule in KEEP and (rule, msg) not in out:
            out.append((rule, msg))
    seen, owners = reach(c)
    sv = shape.Survey(c.ip, st, bad, owners)
    sv.settle()
    for k in [k for k in seen if k[0] == "n"]:
        if k[1] in sv.seen or st.mem[k]["st"] != "live":
            continue
        top = sv.climb(k[1])
        if top is None or top in sv.seen:
            continue
        up = getf(st, top, "up")
        if not isinstance(up, Lazy) and not is_none(up) and st.nptr(up.f[0]).r[0] != "a":
            continue        # reported while climbing
        sv.top(top)
    # no datum is dropped twice, none that can still be reached was dropped
    dropped = set()
    for e in st.log:
        if is_tag(e, "drop"):
            d = H.norm_val(st, e[1])
            if d in dropped:
                bad("memory", "the datum of %s is dropped twice" % (d,))
            dropped.add(d)
    for k in seen:
        if k[0] == "n" and k in st.mem and st.mem[k]["st"] == "live":
            v = getf(st, k[1], "data")
            have = []
            if not isinstance(v, Lazy) and v is not UNINIT:
                shape.data_in(v, have)
            for x in have:
                if H.norm_val(st, x) in dropped:
                    bad("memory", "the datum of the reachable node %s was dropped" % nm(st, k[1]))
    c.out += [x for x in out if x not in c.out]


def worker(args):
    import check as main
    return main.worker(args, panics=check)


def p28(ws, pid, tier):
    import registry
    dump = ws.dump_probes(ws.compile_crate())
    todo = [(dump, m, p.name) for m in registry.MODULES for p in importlib.import_module(m).PROBES if not p.name.startswith(SKIP)]
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(worker, todo, chunksize=1)
    viol, names, fns = [], [], set()
    n = {"entry_points": len(todo), "entry_points_that_can_unwind": 0, "abstract_paths": 0, "abstract_steps": 0, "states_after_unwinding_checked": 0}
    for name, finds, st, err in res:
        if err:
            viol.append(("%s|analysis" % name, "%s: analysis failed: %s" % (name, err)))
            continue
        if st["checks"]:
            names.append(name)
            n["entry_points_that_can_unwind"] += 1
        n["abstract_paths"] += st["paths"]
        n["abstract_steps"] += st["steps"]
        n["states_after_unwinding_checked"] += st["checks"]
        fns |= st["fns"]
        viol += [("%s|%s|%s" % (f.probe, f.rule, f.where), "%s: [%s] %s  at %s" % (f.probe, f.rule, f.msg, f.where)) for f in finds]
    if n["entry_points_that_can_unwind"] < 60:
        viol.append(("anchor|panics", "only %d entry points call into the caller's code" % n["entry_points_that_can_unwind"]))
    n["functions_analysed"] = len(fns)
    n["functions"] = sorted(x.replace("opq::Elem", "T") for x in fns)[:200]
    return {"violations": viol, "coverage": n, "names": names}
