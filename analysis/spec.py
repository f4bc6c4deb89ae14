"""Probe harness: initial states, expectations at exit and the mapping of broken rules to properties."""
import heap as H
import shape
from core import *
from heap import rec, getf, NP, is_none, opt_ptr, nm
from interp import Interp
from loops import Loops, logs_equal, compress, instantiate, show_ev
from models import Models

RULES = {
    "links": ("P01", "P03", "P04"),
    "root": ("P04", "P01"),
    "sizes": ("P02",),
    "order": ("P03",),
    "data": ("P03", "P05"),
    "count": ("P05", "P06"),
    "borrow": ("P26",),
    "hidden": ("P11",),
}


class Finding:
    def __init__(self, props, probe, rule, msg, where):
        self.props = props
        self.probe = probe
        self.rule = rule
        self.msg = msg
        self.where = where


class Build:
    """initial state of a probe"""

    def __init__(self, ip, st):
        self.ip = ip
        self.st = st
        self.prog = ip.prog
        self.ent = {}
        self.objs = []
        self.info = {}
        self.lent = set()

    def obj(self, name, ty, v):
        r = ("o", name)
        self.st.put(r, v)
        self.objs.append((r, ty))
        return P(r)

    def tyf(self, pred, what):
        for t in self.prog.tys:
            if pred(t):
                return t
        raise Inconclusive("anchor type %s not found" % what)

    # --- arbitrary node of an arbitrary tree
    def node(self, name, **kw):
        nid = H.new_node(self.st, (name, ZERO), **kw)
        self.ent[name] = nid
        return nid

    def pin(self, name, **kw):
        self.lent.add(name)
        return A(0, (H.nid_ptr(self.node(name, **kw)),))

    def noderef(self, name, **kw):
        self.lent.add(name)
        return H.nid_ptr(self.node(name, **kw))

    def root(self, name, hidden=False, **kw):
        nid = H.new_node(self.st, (name, ZERO), up=NONE, prev=NONE, next=NONE, rc=ONE, listed=False, hidden=hidden,
                         ext=False, **kw)
        self.ent[name] = nid
        return nid

    def tree(self, name, **kw):
        return H.L.mk_struct(H.L.tree, root=H.nid_ptr(self.root(name, **kw)))

    def forest(self, name, **kw):
        return H.L.mk_struct(H.L.forest, root=H.nid_ptr(self.root(name, hidden=True, **kw)))

    def copy(self, name, v):
        """what a clone of the tree or forest `name` will be"""
        self.st.ghost = dict(self.st.ghost)
        self.st.ghost["copy"] = tuple(self.st.ghost.get("copy", ())) + ((self.ent[name], v),)

    # --- handles
    def handles(self):
        self.st.ghost = dict(self.st.ghost)
        self.st.ghost["handles"] = True
        self.st.ghost["guarded"] = True

    def plain(self, *names):
        """trees passed by value: nobody holds handles to their nodes"""
        self.st.ghost = dict(self.st.ghost)
        self.st.ghost["plain"] = tuple(self.st.ghost.get("plain", ())) + names

    def uniform(self, storage):
        """bound of the probe: all nodes of the pre-state are stored alike (piled: in one buffer)"""
        self.st.ghost = dict(self.st.ghost)
        self.st.ghost["uniform"] = storage

    def uniform_of(self, name):
        """the same per argument: all nodes of its tree are stored like the node itself (piled: in the same buffer)"""
        k = rec(self.st, self.ent[name])["kind"]
        self.st.ghost = dict(self.st.ghost)
        self.st.ghost["uniform"] = tuple(self.st.ghost.get("uniform", ())) + ((name, "Scattered" if k == "sc" else ("Piled", k[1])),)

    def rcnode(self, name, storage, child, borrow=None, held=ONE):
        """a live node with `held` handles in the probe, a child of some node or a root"""
        st = self.st
        self.handles()
        nid = H.new_node(st, (name, ZERO), fixkind=storage, handles=held, hidden=False, ownpile=True)
        self.ent[name] = nid
        H.force_data(st, nid)
        H.fix_up(st, nid, child)
        if borrow == "r":
            b = sym("readers_" + name)
            st.assume_ge0(b - 1)
            H.upd(st, nid, borrow=b, borrow0=b)
        elif borrow == "w":
            H.upd(st, nid, borrow="w", borrow0="w")
        return nid

    def handle(self, nid):
        k = rec(self.st, nid)["kind"]
        if k == "sc":
            return H.L.mk_handle(H.L.rcnode, "Scattered", P(("n", nid), ("CELL",)), None, None)
        return H.L.mk_handle(H.L.rcnode, "Piled", None, k[1], k[2])

    def rc(self, name, storage, child, borrow=None):
        return self.handle(self.rcnode(name, storage, child, borrow))

    def weak(self, name, storage, alive, child=True):
        st = self.st
        if alive:
            nid = self.rcnode(name, storage, child, held=ZERO)
        else:
            self.handles()
            nid = H.new_node(st, (name, ZERO), up=NONE, prev=NONE, next=NONE, listed=False, fixkind=storage, hidden=False, rc=ZERO, head=NONE, tail=NONE, kids="exp")
            self.ent[name] = nid
            H.force_data(st, nid)
            H.upd(st, nid, st="freed" if storage == "Scattered" else "dropped", limbo=True, gone_by="before")
        if storage == "Scattered":
            H.upd(st, nid, wk=ONE)
            return H.L.mk_handle(H.L.weaknode, "Scattered", ("wk", nid), None, None)
        k = rec(st, nid)["kind"]
        H.set_pile(st, k[1], ref=st.norm(H.pile_ref(st, k[1]) + 1))
        return H.L.mk_handle(H.L.weaknode, "Piled", None, k[1], k[2])

    def ref(self, name, ty, v):
        return self.obj(name, ty, v)

    def treeref(self, name):
        return self.obj(name, H.L.tree, self.tree(name))

    def forestref(self, name):
        return self.obj(name, H.L.forest, self.forest(name))


class Check:
    """state at exit of one path"""

    def __init__(self, probe, build, ip, st, kind, val, rty):
        self.probe = probe
        self.b = build
        self.ip = ip
        self.st = st
        self.kind = kind
        self.val = val
        self.rty = rty
        self.out = []
        self.ent = build.ent
        self.exp_kids = {}
        self.exp_around = {}
        self.exp_gone = {n for n in build.ent.values() if rec(st, n).get("gone_by") == "before"}
        self.roots_ok = []
        self.extra_owned = []
        self.new_ents = []

    def bad(self, rule, msg):
        if (rule, msg) not in self.out:
            self.out.append((rule, msg))

    # ---- vocabulary
    def deg(self, name):
        return self.st.deg(name, ZERO)

    def all(self, name):
        """all original children of an entity"""
        return ("seg", ("k", name, ZERO), ZERO, self.deg(name))

    def part(self, name, lo, hi):
        return ("seg", ("k", name, ZERO), lo, hi)

    def whole(self, name):
        return ("seg", name, ZERO, ONE)

    def child(self, name, i):
        return ("seg", ("k", name, ZERO), i, i + 1)

    def empty(self, name):
        return self.st.decide("eq0", self.deg(name))

    def is_root(self, name):
        nid = self.ent[name]
        if name in self.exp_around:
            pass
        return self.orig_parent(nid) is None

    def orig_parent(self, nid):
        for k in list(self.st.mem):
            if k[0] == "n" and self.st.mem[k]["src"][0] == ("anc", nid) and self.st.mem[k]["src"][1] == ZERO:
                return k[1]
        return None

    def is_hidden(self, nid):
        """a forest's hidden root? (decides the storage if it is still open)"""
        h = rec(self.st, nid)["hidden"]
        if h is None:
            H.force_data(self.st, nid)
            h = rec(self.st, nid)["hidden"]
        return bool(h)

    def context(self, name):
        """(parent id, left items, right items) of the original position of an arbitrary node"""
        nid = self.ent[name]
        p = self.orig_parent(nid)
        if p is None:
            return None
        if rec(self.st, p)["kids"] != "exp":
            # force the expansion to talk about positions
            up = getf(self.st, nid, "up")
            H.expand_mid(self.st, p, nid)
        a, b = rec(self.st, p)["midlen"]
        L = [("seg", ("L", p), ZERO, a)]
        R = [("seg", ("R", p), ZERO, b)]
        return p, L, R

    # ---- structural comparison
    def survey(self):
        st = self.st
        owners = []
        for r, ty in self.b.objs:
            if r in st.mem:
                shape.owned(self.ip, st, ty, st.mem[r], owners)
        if self.kind == "ret" and self.rty is not None:
            shape.owned(self.ip, st, self.rty, self.val, owners)
        self.owners = owners
        self.sv = shape.Survey(self.ip, st, self.bad, owners).run()
        self.sv.counts()
        self.sv.borrows()
        self.places()
        self.data_once()
        self.check_released()
        self.check_unowned()

    def places(self):
        st, sv = self.st, self.sv
        # entities
        for name, nid in list(self.ent.items()) + [(None, n) for n in self.new_ents]:
            r = rec(st, nid)
            if nid in self.exp_gone:
                if r["st"] == "live":
                    self.bad("leak", "%s was not released" % nm(st, nid))
                continue
            if r["st"] != "live":
                self.bad("release", "%s was released" % nm(st, nid))
                continue
            if nid in self.exp_kids:
                exp = shape.norm_exp(st, self.exp_kids[nid])
            else:
                exp = shape.norm_exp(st, [self.all(name)])
            act = sv.kid_items(nid) if nid in sv.items else None
            if act is None:
                continue
            if not shape.items_equal(st, act, exp):
                self.bad("order", "children of %s are [%s], expected [%s]" % (nm(st, nid), shape.show_items(act), shape.show_items(exp)))
        # ancestors keep their positions
        direct = {}
        for name, items in self.exp_around.items():
            p = self.orig_parent(self.ent[name])
            if p is not None:
                direct[p] = items
        for k in list(st.mem):
            if k[0] != "n" or not st.mem[k].get("chain"):
                continue
            p = k[1]
            if p not in sv.items:
                if st.mem[k]["st"] != "live":
                    self.bad("release", "the ancestor %s was released" % nm(st, p))
                continue
            if p in direct:
                act = sv.kid_items(p)
                exp = shape.norm_exp(st, direct[p])
                if act is None or not shape.items_equal(st, act, exp):
                    self.bad("order", "siblings around the node are [%s], expected [%s]" % (shape.show_items(act), shape.show_items(exp)))
                continue
            if sv.items[p] is None:
                continue
            if sv.ctx_child(p) is None:
                self.bad("order", "children of the ancestor %s are [%s]" % (nm(st, p), shape.show_items(sv.kid_items(p))))

    # ---- expectations
    def kids(self, name, items):
        self.exp_kids[self.ent[name]] = items

    def around(self, name, items):
        self.exp_around[name] = items

    def gone(self, name):
        self.exp_gone.add(self.ent[name])

    exp_rel = None

    def released(self, items):
        """intervals of trees and single nodes whose storage and data are released on this path"""
        self.exp_rel = items

    def check_released(self):
        st = self.st
        iv = {}

        def add(S, lo, hi):
            iv.setdefault(st.norm_seq(S), []).append((st.norm(lo), st.norm(hi)))
        for S, lo, hi in tree_events(st, st.log, "droptree"):
            add(S, lo, hi)
        gone = [k[1] for k, r in st.mem.items() if k[0] == "n" and r["st"] != "live" and not r.get("gone_by") and not r.get("new")]
        shells = []

        def depth(S):
            return 1 + depth(S[1]) if is_tag(S, "k") else 0
        gone.sort(key=lambda n: -depth(st.norm_seq(rec(st, n)["src"][0])))
        for n in gone:
            S, i = rec(st, n)["src"]
            S, i = st.norm_seq(S), st.norm(i)
            ks = st.norm_seq(("k", S, i))
            m = merge(st, iv.get(ks, []))
            if (not m and st.must_eq(st.deg(S, i), ZERO)) or (len(m) == 1 and st.must_eq(m[0][0], ZERO) and st.must_eq(m[0][1], st.deg(S, i))):
                iv.pop(ks, None)
                add(S, i, i + 1)
            else:
                shells.append(("shell", S, i))
        act = [("seg", S, lo, hi) for S in sorted(iv, key=repr) for lo, hi in merge(st, iv[S])] + sorted(shells, key=repr)
        exp = self.exp_rel
        if exp is None:
            exp = [("shell",) + rec(st, n)["src"] for n in self.exp_gone if rec(st, n).get("gone_by") != "before"]
        sh, iv2 = [], {}
        for e in exp:
            if e[0] == "shell":
                S, i = st.norm_seq(e[1]), st.norm(e[2])
                if st.must_eq(st.deg(S, i), ZERO):
                    iv2.setdefault(S, []).append((i, st.norm(i + 1)))
                else:
                    sh.append(("shell", S, i))
            else:
                iv2.setdefault(st.norm_seq(e[1]), []).append((st.norm(e[2]), st.norm(e[3])))
        exp = [("seg", S, lo, hi) for S in sorted(iv2, key=repr) for lo, hi in merge(st, iv2[S])] + sorted(sh, key=repr)
        ok = len(act) == len(exp)
        if ok:
            for x, y in zip(act, exp):
                if x[:2] != y[:2] or not all(st.must_eq(p, q) for p, q in zip(x[2:], y[2:])):
                    ok = False
        if not ok:
            self.bad("release", "released: %s; expected: %s" % (show_rel(act), show_rel(exp)))

    def data_once(self):
        """every datum of a concrete node is in exactly one place"""
        st = self.st
        seen = {}

        def see(d, what):
            d = H.norm_val(st, d)
            seen.setdefault(d, []).append(what)
        for k, r in st.mem.items():
            if k[0] != "n" or r["st"] != "live":
                continue
            d = r["val"].f[H.L.F["data"]]
            if isinstance(d, Lazy) or d is UNINIT:
                continue
            out = []
            shape.data_in(d, out)
            for x in out:
                see(x, "in %s" % nm(st, k[1]))
        out = []
        if self.kind == "ret":
            shape.data_in(self.val, out)
        for r, ty in self.b.objs:
            if r in st.mem:
                shape.data_in(st.mem[r], out)
        for x in out:
            see(x, "returned")
        for e in st.log:
            if is_tag(e, "drop"):
                see(e[1], "dropped")
        for d, w in seen.items():
            if len(w) > 1:
                self.bad("release", "datum %s is in several places: %s" % (show_d(d), ", ".join(w)))
        for k, r in list(st.mem.items()):
            if k[0] != "n" or r.get("new") or r["hidden"] is not False or r.get("limbo"):
                continue
            d = r["val"].f[H.L.F["data"]]
            if r["st"] == "live" and isinstance(d, Lazy) or r.get("gone_by"):
                continue
            x = H.norm_val(st, ("e",) + r["src"])
            if x not in seen:
                self.bad("leak", "the datum of %s is lost" % nm(st, k[1]))

    def dropped(self, data):
        """the data dropped on this path, and no others"""
        st = self.st
        act = [H.norm_val(st, e[1]) for e in st.log if is_tag(e, "drop")]
        exp = [H.norm_val(st, d) for d in data]
        for d in act:
            if d not in exp:
                self.bad("release", "datum %s is dropped" % show_d(d))
        for d in exp:
            if d not in act:
                self.bad("leak", "datum %s is not dropped" % show_d(d))

    # ---- results
    def none(self):
        if not (isinstance(self.val, A) and self.val.v == 0 and not self.val.f):
            self.bad("order", "result is not None")

    def some(self):
        if not (isinstance(self.val, A) and self.val.v == 1):
            self.bad("order", "result is None")
            return None
        return self.val.f[0]

    def tree_is(self, v, item):
        """v is a Tree or Forest whose root is exactly this item"""
        st = self.st
        if v is None:
            return
        q = v.f[0] if isinstance(v, A) else v
        if not isinstance(q, P):
            self.bad("order", "result is not a tree")
            return
        r = self.ip.resolve(st, q).r
        self.later.append((r, item))

    def node_is(self, v, item):
        """v is a reference to exactly this node"""
        st = self.st
        if isinstance(v, A) and len(v.f) == 1:
            v = v.f[0]
        if not isinstance(v, P):
            self.bad("order", "result is not a node")
            return
        r = self.ip.resolve(st, v).r
        self.later2.append((r, item))

    def root_id(self, v):
        q = v.f[0] if isinstance(v, A) else v
        if not isinstance(q, P):
            self.bad("order", "result is not a tree")
            return None
        r = self.ip.resolve(self.st, q).r
        if r[0] != "n":
            self.bad("order", "result is not a tree")
            return None
        return r[1]

    def new_root(self, v, datum, kids=()):
        """v owns a new root node with the given datum (None: hidden) and children"""
        n = self.root_id(v)
        if n is None:
            return
        st = self.st
        st2 = rec(st, n)
        if not st2.get("new"):
            self.bad("order", "the root is not a new node")
            return
        H.upd(st, n, datum=datum, hidden=datum is None)
        self.exp_kids[n] = list(kids)
        self.new_ents.append(n)

    def root_of(self, obj, what, datum):
        self.new_root(self.st.mem[obj[0]], datum)

    def forest_is(self, v, nid):
        """v is a Forest over the node nid, which lost its datum"""
        n = self.root_id(v)
        if n is None:
            return
        if n != nid:
            self.bad("order", "the forest does not own the old root")
        H.upd(self.st, nid, hidden=True)

    # ---- handles
    def handle_is(self, v, item):
        """v is an RcNode that names exactly this node"""
        if not isinstance(v, A) or len(v.f) != 1 or not isinstance(v.f[0], A):
            self.bad("order", "result is not a handle")
            return
        nid = H.L.handle_node(self.ip, self.st, v)
        self.later2.append((("n", nid), item))

    def handle_id(self, v):
        return H.L.handle_node(self.ip, self.st, v)

    def others(self, name):
        """number of handles outside of the probe"""
        return H.kappa(self.st, name, ZERO)

    def is_child(self, name):
        return self.orig_parent(self.ent[name]) is not None

    def survives(self, name):
        """is there another owner besides the probe's?"""
        return self.is_child(name) or not self.st.decide("eq0", self.others(name))

    exp_unown = ()

    def unowned(self, items):
        """intervals of subtrees that lose their owner on this path (they live on through handles, if there are any)"""
        self.exp_unown = items

    def check_unowned(self):
        st = self.st
        iv, iv2 = {}, {}
        for S, lo, hi in tree_events(st, st.log, "unown"):
            iv.setdefault(st.norm_seq(S), []).append((st.norm(lo), st.norm(hi)))
        for e in self.exp_unown:
            iv2.setdefault(st.norm_seq(e[1]), []).append((st.norm(e[2]), st.norm(e[3])))
        act = [("seg", S, lo, hi) for S in sorted(iv, key=repr) for lo, hi in merge(st, iv[S])]
        exp = [("seg", S, lo, hi) for S in sorted(iv2, key=repr) for lo, hi in merge(st, iv2[S])]
        if len(act) != len(exp) or any(x[1] != y[1] or not st.must_eq(x[2], y[2]) or not st.must_eq(x[3], y[3]) for x, y in zip(act, exp)):
            self.bad("release", "subtrees whose owner is gone: %s; expected: %s" % (show_rel(act), show_rel(exp)))

    def uses(self, evs):
        """data the client saw, in order: (look|poke, datum)"""
        st = self.st
        act = [e for e in st.log if is_tag(e, "look") or is_tag(e, "poke")]
        if [H.norm_val(st, tuple(e)) for e in act] != [H.norm_val(st, tuple(e)) for e in evs]:
            self.bad("data", "the client sees %s instead of %s" % ([show_ev(e) for e in act], [show_ev(e) for e in evs]))

    def root_now(self, v):
        """the node named by the handle left its parent"""
        nid = self.handle_id(v)
        up = getf(self.st, nid, "up")
        if isinstance(up, Lazy) or not is_none(up):
            self.bad("root", "%s still has a parent" % nm(self.st, nid))

    def weak_is(self, v, name):
        out = []
        shape.owned(self.ip, self.st, H.L.weaknode, v, out)
        if out != [("weak", self.ent[name])]:
            self.bad("order", "the result is not a weak handle of the node")

    def num(self, n):
        if not isinstance(self.val, Lin) or not self.st.must_eq(self.val, n):
            self.bad("sizes", "result is %r instead of %r" % (self.val, self.st.norm(n)))

    def truth(self):
        """the boolean result (decides it when it is symbolic)"""
        return self.ip.truth(self.st, self.val)

    def flag(self, b):
        if is_tag(self.val, "cond"):
            self.val = ONE if self.truth() else ZERO
        if not isinstance(self.val, Lin) or not self.st.must_eq(self.val, ONE if b else ZERO):
            self.bad("order", "result is %r instead of %r" % (self.val, bool(b)))

    # ---- what the client saw
    def saw(self, exp, tags=("see", "note", "flag", "look", "poke")):
        """the client's observations, in order, are exactly exp"""
        st = self.st

        def keep(log):
            out = []
            for e in log:
                if is_tag(e, "run"):
                    t = keep(e[1])
                    if t:
                        out.append(("run", tuple(t), e[2]))
                elif e[0] in tags:
                    out.append(e)
            return out
        d = logs_equal(st, keep(st.log), exp)
        if d:
            self.bad("seen", "the client sees " + d)

    def before_flag(self):
        """the observation made right before the first flag event (None if there is none)"""
        prev = None
        for e in self.st.log:
            if is_tag(e, "run"):
                inner = [instantiate(x, e[2] - 1) for x in e[1]]
                if any(x[0] == "flag" for x in inner):
                    return None
                inner = [x for x in inner if x[0] in ("see", "note")]
                prev = inner[-1] if inner else prev
            elif e[0] == "flag":
                return prev
            elif e[0] in ("see", "note"):
                prev = e
        return None

    def steps_before_flag(self, S):
        """number of nodes of S seen before the first flag event, None if there is none"""
        n = ZERO
        for e in self.st.log:
            if is_tag(e, "flag"):
                return self.st.norm(n)
            if is_tag(e, "run"):
                if any(x[0] == "flag" for x in e[1]):
                    return None
                n = n + e[2].scale(len([x for x in e[1] if x[0] == "see"]))
            elif e[0] == "see":
                n = n + 1
        return None

    def edit_pos(self, S):
        e = self.before_flag()
        if e is None:
            return None
        if e[0] != "see" or self.st.norm_seq(e[1]) != self.st.norm_seq(S):
            self.bad("seen", "the node edited is not a child of the list")
            return None
        return self.st.norm(e[2])

    def kseq(self, name):
        return ("k", name, ZERO)

    later = None

    def finish(self):
        st = self.st
        self.survey()
        for r, item in self.later:
            if r[0] != "n" or r[1] not in self.sv.seen:
                if r[0] == "n" and rec(st, r[1])["st"] != "live":
                    self.bad("release", "the returned tree was already released")
                else:
                    self.bad("order", "the returned tree is unknown")
                continue
            nid = r[1]
            up = getf(st, nid, "up")
            if isinstance(up, Lazy) or not is_none(up):
                self.bad("root", "the returned tree %s still has a parent" % nm(st, nid))
            act = [self.sv.desc(nid)]
            exp = shape.norm_exp(st, [item])
            if not shape.items_equal(st, act, exp):
                self.bad("order", "the returned tree is [%s], expected [%s]" % (shape.show_items(act), shape.show_items(exp)))
        for r, item in self.later2:
            if r[0] != "n":
                self.bad("order", "the returned reference does not name a node")
                continue
            S, i = rec(st, r[1])["src"]
            if st.norm_seq(S) != st.norm_seq(item[1]) or not st.must_eq(i, item[2]):
                self.bad("order", "the returned reference names %s instead of %s" % (nm(st, r[1]), shape.show_items([item])))


def tree_events(st, log, tag):
    """intervals (S, lo, hi) of all events (tag, S, i) in a log with runs"""
    out = []
    for e in log:
        if is_tag(e, tag):
            out.append((e[1], e[2], e[2] + 1))
        elif is_tag(e, "run"):
            n = st.norm(e[2])
            for t in e[1]:
                if is_tag(t, "run"):
                    if any(is_tag(x, tag) for x in t[1]):
                        raise Inconclusive("nested repetition of releases")
                if not is_tag(t, tag):
                    continue
                k = dict(t[2].t).get(("iota",), 0)
                base = t[2] - Lin(0, ((("iota",), k),))
                if "iota" in repr(base) or "iota" in repr(t[1]):
                    raise Inconclusive("releases in an irregular order")
                if k == 1:
                    out.append((t[1], base, base + n))
                elif k == -1:
                    out.append((t[1], base - n + 1, base + 1))
                else:
                    raise Inconclusive("releases with stride %d" % k)
    return out


def merge(st, ivs):
    ivs = [x for x in ivs if not st.must_eq(x[0], x[1])]
    ch = True
    while ch:
        ch = False
        for i in range(len(ivs)):
            for j in range(len(ivs)):
                if i != j and st.must_eq(ivs[i][1], ivs[j][0]):
                    ivs[i] = (ivs[i][0], ivs[j][1])
                    del ivs[j]
                    ch = True
                    break
            if ch:
                break
    return sorted(ivs, key=repr)


def show_rel(items):
    return ", ".join("%s[%r..%r)" % (show_seq(x[1]), x[2], x[3]) if x[0] == "seg" else "only node %s[%r]" % (show_seq(x[1]), x[2])
                     for x in items) or "nothing"


def show_d(d):
    if is_tag(d, "e"):
        return "%s[%r]" % (show_seq(d[1]), d[2])
    return str(d)


class Probe:
    def __init__(self, name, props, setup, check, panics=None, opts=None, rules=None, loops=True, borrowed=False, main=None):
        self.borrowed = borrowed
        self.main = main        # the property the probe was written for: every finding of the probe concerns it
        self.name = name
        self.props = props
        self.setup = setup
        self.check = check
        self.panics = panics
        self.opts = opts or {}
        self.rules = rules or {}
        self.only = None       # the rules this probe decides (others belong to its siblings)


def run_probe(prog, probe, panics=None):
    """-> (findings, stats)"""
    finds = []

    def add(rule, msg, where):
        if probe.only and rule not in probe.only:
            return
        ps = probe.rules.get(rule) or RULES.get(rule)
        ps = [p for p in (ps or probe.props) if p in probe.props] or list(probe.props)
        if probe.main and probe.main not in ps:
            ps.append(probe.main)
        finds.append(Finding(ps, probe.name, rule, msg, where))
    st = State()
    stats = {"paths": 0, "steps": 0, "loops": 0, "fns": set(), "checks": 0}
    if probe.name not in prog.roots and probe.opts.get("fn") not in prog.roots:
        add("anchor", "the client function %s was not compiled" % probe.name, probe.name)
        return finds, stats
    fn = prog.fns[prog.roots[probe.opts.get("fn", probe.name)]]
    opts = {"max_steps": 800000, "max_paths": 6000}
    opts.update(probe.opts)
    if panics:
        opts["unwind"] = True
    ip = Interp(prog, Models(prog), opts)
    ip.loops = Loops()
    b = Build(ip, st)
    try:
        import contracts
        contracts.install(ip, probe)
        args = probe.setup(b)
        st.ghost = dict(st.ghost)
        st.ghost["pins"] = tuple(H.nid_ptr(n) for n in b.ent.values())
        ip.call_fn(st, fn, args, None, None, None)
        ip.run(st)
    except Inconclusive as e:
        add("analysis", "no verdict: %s" % e, short_where(ip))
    for rule, msg, where in ip.violations:
        add(rule, msg, where)
    if not panics and not finds:
        for where in ip.loops.hangs():
            add("hang", "the loop never ends from some state on", where)
    rty = prog.ty(fn.locals[0])
    for o in ip.outcomes:
        if panics and o.kind != "unwound":
            continue
        work = [o.st.copy()]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 400:
                add("analysis", "too many cases at exit", fn.full)
                break
            sv = s.copy()
            c = Check(probe, b, ip, s, o.kind, o.val, rty)
            c.later = []
            c.later2 = []
            try:
                if panics:
                    panics(c)
                elif o.kind == "ret":
                    probe.check(c)
                    c.finish()
                elif o.kind in ("panic", "abort"):
                    if probe.panics is None or not probe.panics(c):
                        c.bad("panic", "panics (%s)" % o.val)
                else:
                    c.bad("panic", o.kind)
                stats["checks"] += 1
            except Fork as fk:
                for alt in fk.alts:
                    s2 = sv.copy()
                    try:
                        alt(s2)
                    except Infeasible:
                        continue
                    except Fork as fk2:
                        for alt2 in fk2.alts:
                            s3 = sv.copy()
                            try:
                                alt2(s3)
                                alt(s3)
                            except Infeasible:
                                continue
                            work.append(s3)
                        continue
                    work.append(s2)
                continue
            except Infeasible:
                continue
            except Inconclusive as e:
                c.bad("analysis", "no verdict at exit: %s" % e)
            except Violation as v:
                c.bad(v.rule, v.msg)
            for rule, msg in c.out:
                add(rule, msg, o.where if hasattr(o, "where") else fn.full)
    stats["paths"] = len(ip.outcomes)
    stats["steps"] = ip.steps
    stats["loops"] = ip.loops.gens
    stats["fns"] = {prog.fns[i].full for i in ip.fns_seen if prog.fns[i].crate == "trees"}
    stats["models"] = set(ip.calls_seen)
    return finds, stats


def short_where(ip):
    return getattr(ip, "last_where", "?")
