"""Contracts of the recursive functions of the crate: proved by their own probes, applied everywhere else."""
import re
from core import *
import heap as H
import shape
from heap import rec, getf, is_none, opt_ptr, nm


def is_first(ip, st, what):
    """the outermost application in the probe that proves the contract is interpreted, not assumed"""
    if ip.prove != what or st.ghost.get("proved"):
        return False
    st.ghost = dict(st.ghost)
    st.ghost["proved"] = 1
    return True


def install(ip, probe):
    ip.prove = probe.opts.get("prove")
    if probe.opts.get("deep"):
        import deep
        deep.install(ip)
    L = H.L

    def tree_drop(ip, st, fn):
        return L.tree is not None and fn.id == L.tree.d["drop"]

    def forest_drop(ip, st, fn):
        return L.forest is not None and fn.id == L.forest.d["drop"]

    def do_drop(what):
        def go(ip, st, fn, args, atys, dty, unw):
            if is_first(ip, st, what):
                return NotImplemented
            if what == "forest" and ip.prove is None or what == "forest":
                return NotImplemented
            drop_root(ip, st, args[0])
            if ip.models.choose_panic(ip, st, "Drop of an element of a tree"):
                ip.unwind_to(st, unw)
                return ("pushed",)
            return UNIT
        return go
    ip.summaries.append((tree_drop, do_drop("tree")))

    def rc_drop(ip, st, fn):
        return L.rcnode is not None and fn.id == L.rcnode.d["drop"]

    def do_rc(ip, st, fn, args, atys, dty, unw):
        if is_first(ip, st, "rc"):
            return NotImplemented
        v = ip.load(st, args[0])
        unown(ip, st, L.handle_node(ip, st, v))
        if ip.models.choose_panic(ip, st, "Drop of an element owned by a handle"):
            ip.unwind_to(st, unw)
            return ("pushed",)
        return UNIT
    ip.summaries.append((rc_drop, do_rc))
    for pred, go in clones(ip) + relations(ip):
        ip.summaries.append((pred, go))


CLONE = re.compile(r"<trees::(?:tree::)?(Tree)<.*> as [\w:]*Clone>::clone$|<trees::(?:forest::)?(Forest)<.*> as [\w:]*Clone>::clone$|trees::(?:\w+::)*Node::<.*>::(deep_clone|deep_clone_forest)$")


def clones(ip):
    """clone() of an unchanged operand hands out the copy the probe prepared (that it is one: P22)"""
    memo = {}

    def of(fn):
        m = memo.get(fn.id)
        if m is None:
            m = memo[fn.id] = bool(CLONE.match(fn.full))
        return m

    def go(ip, st, fn, args, atys, dty, unw):
        copies = st.ghost.get("copy")
        if copies is None:
            return NotImplemented
        q = ip.resolve(st, args[0])
        if q.r[0] == "o":
            v = ip.load(st, q)
            q = ip.resolve(st, v.f[0] if isinstance(v, A) else v)
        nid = q.r[1] if q.r[0] == "n" else None
        for i, (a, v) in enumerate(copies):
            if a == nid:
                if not rec(st, nid)["kids"] == "lazy" and st.must_eq(getf(st, nid, "size").f[0], rec(st, nid)["deg0"]):
                    raise Inconclusive("a tree is cloned after it was changed")
                st.ghost = dict(st.ghost)
                st.ghost["copy"] = copies[:i] + copies[i + 1:]
                return v
        raise Inconclusive("clone of something that is not a borrowed operand, or its second clone")
    return [(lambda ip, st, fn: of(fn), go)]


def viol(rule, msg):
    raise Violation("release" if rule == "links" else rule, msg)


def drop_root(ip, st, p):
    """Tree::drop on a well-formed root: releases every node and datum of the tree"""
    v = ip.load(st, p)
    q = v.f[0] if isinstance(v, A) else v
    q = ip.resolve(st, q)
    if q.r[0] != "n":
        raise Violation("memory", "drop of a tree with a dangling root")
    nid = q.r[1]
    r = ip.node_live(st, nid, q)
    if r["st"] != "live":
        raise Violation("release", "tree %s is released twice" % nm(st, nid))
    up = ip.load(st, P(("n", nid), H.NP + (H.L.F["up"],)))
    if not is_none(up):
        raise Violation("release", "node %s is released as a tree but still has a parent" % nm(st, nid))
    sv = shape.Survey(ip, st, viol)
    sv.top(nid)
    release(ip, st, sv, nid)


def release(ip, st, sv, nid):
    r = rec(st, nid)
    if r["kind"] is None and (sv.desc(nid)[0] != "seg" or r["hidden"] is None):
        H.force_data(st, nid)
        r = rec(st, nid)
    rc = ip.models.rc_of(ip, st, nid)
    if not st.must_eq(rc, ONE):
        raise Violation("release", "node %s is released as part of a tree but has %r owners" % (nm(st, nid), st.norm(rc)))
    items = sv.items[nid]
    d = sv.desc(nid)
    S, i = r["src"]
    if d[0] == "seg":
        st.event("droptree", st.norm_seq(S), st.norm(i))
        opaque = True
    else:
        opaque = False
        dd = getf(st, nid, "data")
        out = []
        shape.data_in(dd, out)
        for x in out:
            st.event("drop", H.norm_val(st, x))
    if items:
        for it in items:
            if it[0] == "node":
                if opaque:
                    swallow(ip, st, sv, it[1])
                else:
                    release(ip, st, sv, it[1])
            elif not opaque:
                S2, lo, hi = st.norm_seq(it[1]), st.norm(it[2]), st.norm(it[3])
                if lo != hi:
                    st.event("run", (("droptree", S2, lo + atom(("iota",))),), st.norm(hi - lo))
    # segments of released children disappear
    for sid, par in list(sv.segs.items()):
        if par == nid:
            st.rm(("s", sid))
    if items is None and not opaque:
        SS, i = ("k",) + r["src"], ZERO
        st.event("run", (("droptree", st.norm_seq(SS), atom(("iota",))),), st.deg(*r["src"]))
    end_node(ip, st, nid)
    shrink_piles(ip, st)


def swallow(ip, st, sv, nid):
    """a concrete node inside of a tree that is released as a whole"""
    r = rec(st, nid)
    for it in sv.items[nid] or ():
        if it[0] == "node":
            swallow(ip, st, sv, it[1])
    for sid, par in list(sv.segs.items()):
        if par == nid:
            st.rm(("s", sid))
    rc = r["rc"]
    if not isinstance(rc, Lazy) and not st.must_eq(rc, ONE):
        raise Violation("release", "node %s is released as part of a tree but has %r owners" % (nm(st, nid), st.norm(rc)))
    H.upd(st, nid, opaque=True)
    end_node(ip, st, nid)


def end_node(ip, st, nid):
    r = rec(st, nid)
    k = r["kind"]
    rc = r["rc"] if not isinstance(r["rc"], Lazy) else ONE
    if k is not None and k[0] == "pl":
        pid = k[1]
        pl = st.mem[("v", pid)]
        H.set_pile(st, pid, ref=st.norm(H.pile_ref(st, pid) - rc), slots=tuple(x for x in pl["slots"] if x[1] != nid))
    H.upd(st, nid, st="freed", rc=ZERO, gone_by="tree")


def shrink_piles(ip, st, skip=None):
    """an unknown number of the released nodes lived in the buffers we know"""
    for k in [k for k in st.mem if k[0] == "v"]:
        pl = st.mem[k]
        if pl["st"] != "live" or k[1] == skip:
            continue
        pid = k[1]
        rest = st.norm(pl["rest"])
        if rest != ZERO:
            rest2 = sym(st.fresh("rest"))
            st.assume_ge0(rest - rest2)
            H.set_pile(st, pid, ref=st.norm(H.pile_ref(st, pid) - rest + rest2), rest=rest2)
    for k in [k for k in st.mem if k[0] == "v"]:
        pl = st.mem[k]
        if pl["st"] == "live" and st.decide("eq0", H.pile_ref(st, k[1])):
            H.set_pile(st, k[1], st="freed")


# ------------------------------------------------------------------------------------------------ handles
def unown(ip, st, nid):
    """RcNode::drop: one owner of the node less; the last one releases the datum, unlinks the children and gives up
    one owner of each of them"""
    r = rec(st, nid)
    if r["st"] != "live" or r.get("limbo"):
        raise Violation("release", "a handle names the released node %s" % nm(st, nid))
    if r["kind"] is None:
        H.force_data(st, nid)
    rc = ip.models.rc_of(ip, st, nid)
    r = rec(st, nid)
    S, i = r["src"]
    fl = [getf(st, nid, x) for x in ("up", "prev", "next")]
    if not r.get("new") and not r.get("chain") and r["handles"] == ZERO and H.kids_pristine(st, nid) and r["kids"] == "lazy" \
            and st.norm(rc - ONE - H.kappa(st, S, i)) == ZERO and r["wk"] == ZERO and H.kappa(st, S, i) != ZERO:
        if any(isinstance(x, Lazy) or not is_none(x) for x in fl):
            raise Violation("release", "the last owner of %s goes while it is linked to other nodes" % nm(st, nid))
        sv = shape.Survey(ip, st, viol)
        sv.top(nid)
        st.event("unown", st.norm_seq(S), st.norm(i))
        k = r["kind"]
        if is_tag(k, "pl"):
            pl = st.mem[("v", k[1])]
            rest = sym(st.fresh("rest"))
            st.assume_ge0(pl["rest"] + rc - 1 - rest)
            H.set_pile(st, k[1], ref=st.norm(H.pile_ref(st, k[1]) - pl["rest"] - rc + rest), rest=rest,
                       slots=tuple(x for x in pl["slots"] if x[1] != nid))
        H.upd(st, nid, limbo=True)
        shrink_piles(ip, st, skip=k[1] if is_tag(k, "pl") else None)
        return
    if not st.decide("eq0", rc - 1):
        H.upd(st, nid, rc=st.norm(rc - 1))
        if is_tag(r["kind"], "pl"):
            H.set_pile(st, r["kind"][1], ref=st.norm(H.pile_ref(st, r["kind"][1]) - 1))
        return
    if any(isinstance(x, Lazy) or not is_none(x) for x in fl):
        raise Violation("release", "the last owner of %s goes while it is linked to other nodes" % nm(st, nid))
    sv = shape.Survey(ip, st, viol)
    sv.top(nid)
    if r["borrow"] != ZERO:
        raise Violation("borrow", "%s is released while it is borrowed" % nm(st, nid))
    out = []
    shape.data_in(getf(st, nid, "data"), out)
    for x in out:
        st.event("drop", H.norm_val(st, x))
    items = sv.items[nid]
    if items is None:
        st.event("run", (("unown", st.norm_seq(("k",) + r["src"]), atom(("iota",))),), st.deg(*r["src"]))
    for it in items or ():
        if it[0] == "node":
            H.setf(st, it[1], up=NONE, prev=NONE, next=NONE)
            unown(ip, st, it[1])
        else:
            S2, lo, hi = st.norm_seq(it[1]), st.norm(it[2]), st.norm(it[3])
            if lo != hi:
                st.event("run", (("unown", S2, lo + atom(("iota",))),), st.norm(hi - lo))
    for sid, par in list(sv.segs.items()):
        if par == nid:
            st.rm(("s", sid))
    k = rec(st, nid)["kind"]
    if is_tag(k, "pl"):
        H.set_pile(st, k[1], ref=st.norm(H.pile_ref(st, k[1]) - 1))
        H.upd(st, nid, st="dropped", rc=ZERO, limbo_kids=True)
    else:
        H.upd(st, nid, st="freed", rc=ZERO)
    shrink_piles(ip, st)


# ------------------------------------------------------------------------------------------------ structural relations
REL = re.compile(r"^<trees::(Node|RcNode)<opq::Elem> as std::(?:cmp::(?:PartialEq|PartialOrd|Ord)|hash::Hash|fmt::Display|fmt::Debug)>::"
                 r"(eq|ne|partial_cmp|cmp|hash|fmt)(?:::<opq::QH>)?$")


def relations(ip):
    """comparison, hashing and printing of a whole subtree: an opaque structural operation; only the receivers of the
    probes that prove this are interpreted"""
    from models import opaque_choice, Ctx0
    memo = {}

    def of(fn):
        m = memo.get(fn.id)
        if m is None:
            x = REL.match(fn.full)
            m = memo[fn.id] = (x.group(1), x.group(2)) if x else ()
        return m

    def item(ip, st, kind, p):
        v = ip.load(st, p) if kind == "RcNode" else p
        nid = H.L.handle_node(ip, st, v) if kind == "RcNode" else node_of(ip, st, v)
        r = rec(st, nid)
        if r["st"] != "live":
            raise Violation("memory", "the released node %s is compared, hashed or printed" % nm(st, nid))
        S, i = r["src"]
        return nid, st.norm_seq(S), st.norm(i)

    def node_of(ip, st, p):
        q = ip.resolve(st, p)
        if q.r[0] != "n" or q.p != NPATH:
            raise Violation("memory", "comparison, hash or printout of something that is not a node of the tree")
        return q.r[1]

    NPATH = H.NP

    def go(ip, st, fn, args, atys, dty, unw, ctx=None):
        kind, op = of(fn)
        n = 2 if op in ("eq", "ne", "partial_cmp", "cmp") else 1
        its = [item(ip, st, kind, a) for a in args[:n]]
        if ip.prove == "rel" and any(isinstance(x[1], str) for x in its):
            return NotImplemented
        for nid, S, i in its:
            r = rec(st, nid)
            if r["hidden"]:
                raise Violation("hidden", "the hidden root is compared, hashed or printed")
            if kind == "RcNode" and r["borrow"] == "w":
                raise Panic("already mutably borrowed")
        ev = [("n", S, i) for nid, S, i in its]
        c = ctx or Ctx0(ip, st)
        if op in ("eq", "ne"):
            r = opaque_choice(c, "rel_eq", 2)
            st.event("cmp", "eq", ev[0], ev[1], r)
            return ONE if r == (1 if op == "eq" else 0) else ZERO
        if op == "partial_cmp":
            r = opaque_choice(c, "rel_pc", 4)
            st.event("cmp", "partial_cmp", ev[0], ev[1], r)
            return NONE if r == 3 else A(1, (A(r, ()),))
        if op == "cmp":
            r = opaque_choice(c, "rel_c", 3)
            st.event("cmp", "cmp", ev[0], ev[1], r)
            return A(r, ())
        if op == "hash":
            st.event("hash", ev[0])
            return UNIT
        e = opaque_choice(c, "rel_fmt", 2)
        st.event("dbg" if "std::fmt::Debug" in fn.full else "fmt", ev[0], e)
        return A(1, (UNIT,)) if e else A(0, (UNIT,))
    return [(lambda ip, st, fn: bool(of(fn)), go)]
