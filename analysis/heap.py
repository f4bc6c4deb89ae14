"""The abstract heap of tree nodes.

A node record is either concrete (root ('n',id)) or hidden in a summary:
  segment  ('s',id): consecutive siblings S[lo..hi) with pristine closed subtrees, same parent pointer,
                     reached through the end roots ('f',id) and ('l',id)
  chain    ('a',id): consecutive ancestors C[lo..hi), each with its descendant count changed by `delta`
Summaries are expanded on access (materialisation) and restored at loop heads (folding, see loops.py).
"""
from core import *

NP = ("NODE",)


class Layout:
    """field positions, looked up by name in the compiled crate (anchors)"""

    def __init__(self, prog):
        self.prog = prog
        self.node = None
        for t in prog.tys:
            if t.k == "adt" and t.path == "trees::Node" and "opq::Elem" in t.name:
                self.node = t
        if self.node is None:
            raise Inconclusive("anchor type trees::Node<Elem> not found")
        f = self.node.d["v"][0]["f"]
        self.F = {n: i for i, (n, _) in enumerate(f)}
        self.fty = {n: prog.ty(t) for n, t in f}
        for n in ("prev", "next", "head", "tail", "up", "size", "data"):
            if n not in self.F:
                raise Inconclusive("anchor field Node::%s not found" % n)
        if len(f) != 7:
            raise Inconclusive("Node has %d fields, 7 expected" % len(f))
        self.data = self.fty["data"]
        self.DV = {v["n"]: i for i, v in enumerate(self.data.d["v"])}
        self.DF = {v["n"]: {n: i for i, (n, _) in enumerate(v["f"])} for v in self.data.d["v"]}
        for n in ("None", "ScatteredNone", "Scattered", "PiledNone", "Piled"):
            if n not in self.DV:
                raise Inconclusive("anchor variant Data::%s not found" % n)
        self.size = self.fty["size"]
        self.SF = {n: i for i, (n, _) in enumerate(self.size.d["v"][0]["f"])}
        for n in ("degree", "descendants"):
            if n not in self.SF:
                raise Inconclusive("anchor field Size::%s not found" % n)
        self.nodevec = None
        self.tree = self.forest = self.shared = None
        for t in prog.tys:
            if t.k != "adt":
                continue
            if t.path.endswith("node_vec::NodeVec") and "opq::Elem" in t.name and t.name.count("<") == 1:
                self.nodevec = t
            if t.path.endswith("rc::Shared"):
                self.shared = t
            if t.path == "trees::Tree" and t.d["args"] and prog.ty(t.d["args"][0]).name == "opq::Elem":
                self.tree = t
            if t.path == "trees::Forest" and t.d["args"] and prog.ty(t.d["args"][0]).name == "opq::Elem":
                self.forest = t
        def pick(path):
            for t in prog.tys:
                if t.k == "adt" and t.path.split("::")[-1] == path and t.path.startswith("trees::") and t.d["args"] and \
                        prog.ty(t.d["args"][0]).name == "opq::Elem":
                    return t
            return None
        self.rcnode, self.weaknode = pick("RcNode"), pick("WeakNode")
        self.iterrc = pick("IterRc")
        if self.nodevec is not None:
            self.VF = {n: i for i, (n, _) in enumerate(self.nodevec.d["v"][0]["f"])}
            for n in ("buf", "ref_cnt"):
                if n not in self.VF:
                    raise Inconclusive("anchor field NodeVec::%s not found" % n)
        if self.shared is not None:
            self.HF = {n: i for i, (n, _) in enumerate(self.shared.d["v"][0]["f"])}
            self.shared_size = self.shared.d["size"]

    def mk_data(self, kind, datum, owner):
        v = self.DV[kind]
        n = len(self.DF[kind])
        fs = [None] * n
        if "data" in self.DF[kind]:
            fs[self.DF[kind]["data"]] = datum
        if "owner" in self.DF[kind]:
            fs[self.DF[kind]["owner"]] = owner
        return A(v, tuple(fs))

    def mk_size(self, deg, desc):
        fs = [None] * len(self.SF)
        fs[self.SF["degree"]] = deg
        fs[self.SF["descendants"]] = desc
        return A(0, tuple(fs))

    def mk_node(self, **kw):
        fs = [None] * 7
        for k, v in kw.items():
            fs[self.F[k]] = v
        return A(0, tuple(fs))

    def mk_handle(self, ty, variant, cell, pile, idx):
        """an RcNode or WeakNode"""
        if ty is None:
            raise Inconclusive("anchor type RcNode/WeakNode not found")
        for vi, v in enumerate(ty.d["v"]):
            if v["n"] == variant and len(v["f"]) == 1:
                it = self.prog.ty(v["f"][0][1])
                fs = []
                for n, t in it.d["v"][0]["f"]:
                    t = self.prog.ty(t)
                    fs.append(cell if variant == "Scattered" else idx if t.k == "uint" else P(("v", pile), ()) if t.k != "adt" or "Phantom" not in t.path else UNIT)
                return A(vi, (A(0, tuple(fs)),))
        raise Inconclusive("anchor variant %s of %s not found" % (variant, ty.name))

    def handle_node(self, ip, st, v):
        """the node named by an RcNode"""
        inner = v.f[0]
        name = self.rcnode.d["v"][v.v]["n"]
        if name == "Scattered":
            return ip.models.cell_nid(ip, st, inner.f[0])
        vp = [x for x in inner.f if isinstance(x, P)][0]
        ix = [x for x in inner.f if isinstance(x, Lin)][0]
        return ip.models.pile_slot(ip, st, st.root(vp.r)[1], ix).r[1]

    def mk_struct(self, ty, **kw):
        f = ty.d["v"][0]["f"]
        return A(0, tuple(kw[n] if n in kw else UNIT for n, _ in f))


L = None  # Layout of the program under analysis


def set_layout(x):
    global L
    L = x


def nid_ptr(nid):
    return P(("n", nid), NP)


def rec(st, nid):
    return st.mem[("n", nid)]


def upd(s_, nid, **kw):
    r = dict(s_.mem[("n", nid)])
    r.update(kw)
    s_.put(("n", nid), r)
    return r


def getf(st, nid, name):
    return rec(st, nid)["val"].f[L.F[name]]


def setf(s_, nid, **kw):
    r = rec(s_, nid)
    fs = list(r["val"].f)
    for k, v in kw.items():
        fs[L.F[k]] = v
    upd(s_, nid, val=A(0, tuple(fs)))


def size_of_rec(r):
    s = r["val"].f[L.F["size"]]
    return s.f[L.SF["degree"]], s.f[L.SF["descendants"]]


def kmode(st):
    return st.ghost.get("handles", False)


def kappa(st, S, i):
    """number of handles the caller holds besides those of the probe; trees given by value have none"""
    if not kmode(st):
        return ZERO
    b = S
    while is_tag(b, "k"):
        b = b[1]
    if isinstance(b, str) and b in st.ghost.get("plain", ()):
        return ZERO
    return atom(("K", S, i))


def new_node(st, src, up=None, prev=None, next=None, head=None, tail=None, degree=None, desc=None, data=None,
             hidden=False, rc=None, kids="lazy", **kw):
    nid = st.fresh("n")
    S, i = src
    if degree is None:
        degree = atom(("D", S, i))
    if desc is None:
        desc = st.W(S, i + 1) - st.W(S, i) - 1
    v = L.mk_node(
        prev=Lazy("sib") if prev is None else prev, next=Lazy("sib") if next is None else next,
        head=Lazy("kids") if head is None else head, tail=Lazy("kids") if tail is None else tail,
        up=Lazy("up") if up is None else up, size=L.mk_size(degree, desc),
        data=Lazy("data") if data is None else data)
    r = {"val": v, "kind": None, "borrow": ZERO, "rc": Lazy("rc") if rc is None else rc, "weak": Lazy("weak"),
         "src": src, "st": "live", "hidden": hidden, "kids": kids, "deg0": degree, "desc0": desc, "dead": False,
         "handles": ZERO, "wk": ZERO, "listed": None}
    r.update(kw)
    st.put(("n", nid), r)
    return nid


# ---------------------------------------------------------------- segments
def new_seg(st, S, lo, hi, up, left, right):
    sid = st.fresh("s")
    st.put(("s", sid), {"S": S, "lo": lo, "hi": hi, "up": up, "left": left, "right": right})
    return sid


def first(sid):
    return P(("f", sid), NP)


def last(sid):
    return P(("l", sid), NP)


def set_alias(st, **kw):
    pass


def alias(st, r, to):
    st.alias = dict(st.alias)
    st.alias[r] = to


def seg_nonempty(st, sg):
    pass


def node_from_seg(st, S, i, up, prev, next):
    rc = ONE + kappa(st, S, i)
    return new_node(st, (S, i), up=up, prev=prev, next=next, rc=rc, listed=True)


def expand_end(st, root):
    """materialise the first/last node of a segment (forks on length one)"""
    end, sid = root
    sg = st.mem[("s", sid)]
    n = st.norm(sg["hi"] - sg["lo"])
    S = sg["S"]
    one = st.decide("eq0", n - 1) if not st.prove_ge0(n - 2) else False
    if one:
        nid = node_from_seg(st, S, sg["lo"], sg["up"], sg["left"], sg["right"])
        alias(st, ("f", sid), ("n", nid))
        alias(st, ("l", sid), ("n", nid))
        st.rm(("s", sid))
        return ("n", nid)
    if end == "f":
        s2 = new_seg(st, S, st.norm(sg["lo"] + 1), sg["hi"], sg["up"], None, sg["right"])
        nid = node_from_seg(st, S, sg["lo"], sg["up"], sg["left"], SOME(first(s2)))
        d = dict(st.mem[("s", s2)])
        d["left"] = SOME(nid_ptr(nid))
        st.put(("s", s2), d)
        alias(st, ("f", sid), ("n", nid))
        alias(st, ("l", sid), ("l", s2))
    else:
        s2 = new_seg(st, S, sg["lo"], st.norm(sg["hi"] - 1), sg["up"], sg["left"], None)
        nid = node_from_seg(st, S, st.norm(sg["hi"] - 1), sg["up"], SOME(last(s2)), sg["right"])
        d = dict(st.mem[("s", s2)])
        d["right"] = SOME(nid_ptr(nid))
        st.put(("s", s2), d)
        alias(st, ("l", sid), ("n", nid))
        alias(st, ("f", sid), ("f", s2))
    st.rm(("s", sid))
    return ("n", nid)


def expand_chain(st, aid):
    """materialise the lowest ancestor of a summarised ancestor chain"""
    a = st.mem[("a", aid)]
    n = st.norm(a["hi"] - a["lo"])
    one = st.decide("eq0", n - 1) if not st.prove_ge0(n - 2) else False
    C, lo = a["C"], a["lo"]
    if one:
        up = a["up"]
        st.rm(("a", aid))
        # the chain object's pointer now denotes the node
        nid = ancestor_node(st, C, lo, a["child"], up=up)
        st.mem[("n", nid)]["desc_delta"] = a["delta"]
        bump_desc(st, nid, a["delta"])
        alias(st, ("a", aid), ("n", nid))
        return ("n", nid)
    aid2 = st.fresh("a")
    st.put(("a", aid2), {"C": C, "lo": st.norm(lo + 1), "hi": a["hi"], "delta": a["delta"], "child": None, "up": a["up"]})
    nid = ancestor_node(st, C, lo, a["child"], up=SOME(P(("a", aid2), NP)))
    bump_desc(st, nid, a["delta"])
    d = dict(st.mem[("a", aid2)])
    d["child"] = ("n", nid)
    st.put(("a", aid2), d)
    alias(st, ("a", aid), ("n", nid))
    st.rm(("a", aid))
    return ("n", nid)


def bump_desc(st, nid, d):
    r = rec(st, nid)
    dg, ds = size_of_rec(r)
    setf(st, nid, size=L.mk_size(dg, st.norm(ds + d)))


def ancestor_node(st, C, i, child, up=None):
    """an ancestor: its child list (which contains `child`) is only expanded on demand"""
    top_hidden = None  # unknown: may be the hidden root of a forest
    return new_node(st, (C, i), up=up, degree=atom(("AD", C, i)), desc=atom(("AW", C, i)),
                    hidden=top_hidden if up is None else False, kids=("mid", child), chain=True)


# ---------------------------------------------------------------- forcing of lazy fields
def force_kids(st, nid):
    r = rec(st, nid)
    if r["kids"] == "lazy":
        S, i = r["src"]
        d = st.deg(S, i)
        if st.decide("eq0", d):
            setf(st, nid, head=NONE, tail=NONE)
        else:
            sid = new_seg(st, ("k", S, i), ZERO, d, SOME(nid_ptr(nid)), NONE, NONE)
            setf(st, nid, head=SOME(first(sid)), tail=SOME(last(sid)))
        upd(st, nid, kids="exp")
    elif is_tag(r["kids"], "mid"):
        child = st.root(r["kids"][1])
        if child[0] != "n":
            raise Inconclusive("children of an ancestor above a summarised chain are accessed")
        expand_mid(st, nid, child[1])
    else:
        raise Inconclusive("kids already expanded")


def expand_mid(st, pid, cid):
    """the child list of parent `pid` around its known child `cid`: L-seg, child, R-seg (each side empty or not)"""
    def alt(lnz, rnz):
        def go(s):
            S = ("mid", pid)
            p = rec(s, pid)
            c = rec(s, cid)
            a = atom(("s", "a" + pid)) if lnz else ZERO
            b = atom(("s", "b" + pid)) if rnz else ZERO
            if lnz:
                s.assume_ge0(a - 1)
            if rnz:
                s.assume_ge0(b - 1)
            s.assume_eq(p["deg0"], a + b + 1)
            s.assume_eq(p["desc0"], s.W(("L", pid), a) + s.W(("R", pid), b) + c["desc0"] + 1)
            up = SOME(nid_ptr(pid))
            left = right = NONE
            hd = tl = SOME(nid_ptr(cid))
            if lnz:
                sl = new_seg(s, ("L", pid), ZERO, a, up, NONE, SOME(nid_ptr(cid)))
                left = SOME(last(sl))
                hd = SOME(first(sl))
            if rnz:
                sr = new_seg(s, ("R", pid), ZERO, b, up, SOME(nid_ptr(cid)), NONE)
                right = SOME(first(sr))
                tl = SOME(last(sr))
            if isinstance(getf(s, cid, "prev"), Lazy):
                setf(s, cid, prev=left)
            if isinstance(getf(s, cid, "next"), Lazy):
                setf(s, cid, next=right)
            kw = {}
            if isinstance(getf(s, pid, "head"), Lazy):
                kw["head"] = hd
            if isinstance(getf(s, pid, "tail"), Lazy):
                kw["tail"] = tl
            setf(s, pid, **kw)
            upd(s, pid, kids="exp", midlen=(a, b))
        return go
    raise Fork([alt(x, y) for x in (False, True) for y in (False, True)], "siblings of %s" % cid)


def force_up(st, nid):
    """is this node a root or the child of some parent?"""
    r = rec(st, nid)

    def as_root(s):
        if rec(s, nid)["listed"] is True:
            raise Infeasible()
        setf(s, nid, up=NONE, prev=NONE, next=NONE)
        upd(s, nid, listed=False)
        if kmode(s) and rec(s, nid)["hidden"] is None:
            upd(s, nid, hidden=False)
        if isinstance(rec(s, nid)["rc"], Lazy):
            first_rc(s, nid, root_rc(s, nid))

    def as_child(s):
        rr = rec(s, nid)
        if rr["listed"] is False:
            raise Infeasible()
        S, i = rr["src"]
        if rr.get("chain"):
            C, j = S, s.norm(i + 1)
        else:
            C, j = ("anc", nid), ZERO
        pid = ancestor_node(s, C, j, ("n", nid))
        setf(s, nid, up=SOME(nid_ptr(pid)))
        upd(s, nid, listed=True, hidden=False)
        if isinstance(rr["rc"], Lazy):
            first_rc(s, nid, s.norm(ONE + rr["handles"] + kappa(s, S, i)))
    raise Fork([as_root, as_child], "parent of %s" % nid)


def first_rc(s_, nid, rc):
    """the count of a node of the pre-state becomes known"""
    r = upd(s_, nid, rc=rc)
    k = r["kind"]
    if k and k[0] == "pl" and ("v", k[1]) in s_.mem:
        d = s_.norm(rc - 1)
        if d != ZERO:
            pl = s_.mem[("v", k[1])]
            s_.assume_ge0(pl["rest"] - d)
            set_pile(s_, k[1], rest=s_.norm(pl["rest"] - d))


def root_rc(st, nid):
    """count of a root that is not the argument tree of the function: owned by handles only (or by its tree)"""
    r = rec(st, nid)
    S, i = r["src"]
    if kmode(st):
        if r["hidden"] is False or r["hidden"] is None:
            # a root inside a handle-managed tree: only handles own it
            if r["handles"] == ZERO and not r.get("tree_owned"):
                st.assume_ge0(kappa(st, S, i) - 1)
            return st.norm((ONE if r.get("tree_owned") else ZERO) + r["handles"] + kappa(st, S, i))
    return ONE


def force_sib(st, nid):
    r = rec(st, nid)
    up = getf(st, nid, "up")
    if isinstance(up, Lazy):
        return force_up(st, nid)
    if up == NONE:
        setf(st, nid, prev=NONE, next=NONE)
        return
    par = st.root(up.f[0].r)
    if par[0] == "a":
        par = expand_chain(st, par[1])
    k = rec(st, par[1])["kids"]
    if is_tag(k, "mid"):
        return expand_mid(st, par[1], nid)
    raise Inconclusive("siblings of %s unknown" % nid)


def fix_up(st, nid, child):
    """decide without a fork whether nid is a child or a root"""
    try:
        force_up(st, nid)
    except Fork as f:
        f.alts[1 if child else 0](st)


def force_data(st, nid):
    r = rec(st, nid)
    S, i = r["src"]

    def setkind(kind, pile=None):
        def go(s):
            rr = rec(s, nid)
            hid = kind.endswith("None")
            if hid:
                up = getf(s, nid, "up")
                if isinstance(up, Lazy):
                    setf(s, nid, up=NONE, prev=NONE, next=NONE)
                    upd(s, nid, listed=False)
                elif up != NONE:
                    raise Infeasible()
            if kind.startswith("Scattered"):
                k = "sc"
                owner = P(("n", nid), ("CELL",))
            else:
                pd = pile or new_pile(s)
                idx = atom(("X", S, i))
                if hid and False:
                    idx = ZERO
                k = ("pl", pd, idx)
                owner = P(("v", pd), ())
                add_slot(s, pd, idx, nid)
            datum = None if hid else ("e", S, i)
            setf(s, nid, data=L.mk_data(kind, datum, owner))
            upd(s, nid, kind=k, hidden=hid)
        return go
    alts = []
    fixed = r.get("fixkind")
    hid = r["hidden"]
    if hid is None and kmode(st):
        hid = False
    for kind in ("Scattered", "Piled", "ScatteredNone", "PiledNone"):
        h = kind.endswith("None")
        if hid is not None and hid != h:
            continue
        if fixed is not None and not kind.startswith(fixed):
            continue
        uni = st.ghost.get("uniform")
        if isinstance(uni, tuple):
            base = r["src"][0]
            while not isinstance(base, str):
                base = base[1]
            uni = dict(uni).get(base)
            if isinstance(uni, tuple) and fixed is None:
                if not kind.startswith("Piled") or ("v", uni[1]) not in st.mem:
                    continue
                alts.append(setkind(kind, uni[1]))
                continue
        if uni and fixed is None and not kind.startswith(uni):
            continue
        if not (uni == "Piled" and fixed is None):
            alts.append(setkind(kind))
        if kind.startswith("Piled"):
            for k in list(st.mem):
                if k[0] == "v" and st.mem[k]["st"] == "live" and not st.mem[k].get("fresh") and not r.get("ownpile"):
                    alts.append(setkind(kind, k[1]))
    if len(alts) == 1:
        alts[0](st)
        return
    raise Fork(alts, "storage of %s" % nid)


def new_pile(st, fresh=False):
    pid = st.fresh("v")
    rest = sym("rest_" + pid)
    fs = [UNIT] * len(L.VF)
    fs[L.VF["buf"]] = ("pbuf", pid)
    fs[L.VF["ref_cnt"]] = ZERO if fresh else rest
    st.put(("v", pid), {"val": A(0, tuple(fs)), "rest": ZERO if fresh else rest, "len": sym("len_" + pid), "slots": (),
                        "st": "live", "fresh": fresh, "wk": ZERO})
    return pid


def pile_ref(st, pid):
    return st.mem[("v", pid)]["val"].f[L.VF["ref_cnt"]]


def set_pile(s_, pid, ref=None, **kw):
    r = dict(s_.mem[("v", pid)])
    if ref is not None:
        fs = list(r["val"].f)
        fs[L.VF["ref_cnt"]] = ref
        r["val"] = A(0, tuple(fs))
    r.update(kw)
    s_.put(("v", pid), r)


def add_slot(st, pid, idx, nid):
    """a node of the pre-state is found to live in pile pid: its count is part of the pile's count"""
    p = st.mem[("v", pid)]
    r = rec(st, nid)
    rc = r["rc"]
    if isinstance(rc, Lazy):
        rc = None
    # take the node's share out of the rest
    share = rc if rc is not None else ONE
    rest2 = sym(st.fresh("rest"))
    # old rest = share + rest2
    old = p["rest"]
    ref = pile_ref(st, pid)
    for j, m in p["slots"]:
        if st.norm(j - idx) == ZERO:
            raise Infeasible()
    set_pile(st, pid, ref=st.norm(ref - old + share + rest2), rest=rest2, slots=p["slots"] + ((idx, nid),))
    if isinstance(p["len"], Lin):
        st.assume_ge0(p["len"] - idx - 1)


# ---------------------------------------------------------------- well-formedness and shape extraction
class Shape:
    """result of walking the concrete part of a tree: items are ('seg',S,lo,hi) or ('node',nid,datum,[items])"""


def is_none(v):
    return isinstance(v, A) and v.v == 0 and not v.f


def opt_ptr(v):
    return None if is_none(v) else v.f[0]


def kids_pristine(st, nid):
    r = rec(st, nid)
    return isinstance(r["val"].f[L.F["head"]], Lazy) and isinstance(r["val"].f[L.F["tail"]], Lazy)


def same(st, a, b):
    """equality of option-pointers"""
    if is_none(a) or is_none(b):
        return is_none(a) and is_none(b)
    return st.nptr(a.f[0]).r == st.nptr(b.f[0]).r


def walk_kids(st, nid, bad, seen, owner_chain=True):
    """checks the child list of nid; returns (items, degree, total)"""
    r = rec(st, nid)
    S, i = r["src"]
    if r["st"] != "live":
        bad("links", "released node %s is still reachable" % nid)
        return [], ZERO, ZERO
    if kids_pristine(st, nid):
        if r["kids"] == "lazy":
            if st.deg(S, i) == ZERO:
                return [], ZERO, ZERO
            return [("seg", ("k", S, i), ZERO, st.deg(S, i))], st.deg(S, i), st.norm(st.cnt(S, i) - 1)
        return None
    head, tail = getf(st, nid, "head"), getf(st, nid, "tail")
    if isinstance(head, Lazy) or isinstance(tail, Lazy):
        bad("links", "only one end of the child list of %s was updated" % nid)
        return [], ZERO, ZERO
    items = []
    deg, tot = ZERO, ZERO
    prev = NONE
    cur = head
    me = SOME(nid_ptr(nid))
    steps = 0
    while not is_none(cur):
        steps += 1
        if steps > 60:
            bad("links", "child list of %s does not end" % nid)
            break
        p = st.nptr(cur.f[0])
        kind, x = p.r
        if kind == "n":
            if ("n", x) not in st.mem or rec(st, x)["st"] != "live":
                bad("links", "child list of %s reaches released node %s" % (nid, x))
                break
            if x in seen:
                bad("links", "node %s is reached twice (cycle or shared child)" % x)
                break
            seen.add(x)
            pv, nx, up = getf(st, x, "prev"), getf(st, x, "next"), getf(st, x, "up")
            if isinstance(up, Lazy) or not same(st, up, me):
                bad("links", "child %s does not name its parent %s" % (x, nid))
            if isinstance(pv, Lazy) or not same(st, pv, prev):
                bad("links", "child %s: previous-sibling link does not match the order" % x)
            sub, d, t = walk_node(st, x, bad, seen)
            items.append(("node", x, sub))
            deg = deg + 1
            tot = tot + t + 1
            prev = SOME(nid_ptr(x))
            if isinstance(nx, Lazy):
                bad("links", "child %s: next-sibling link unknown" % x)
                break
            cur = nx
        elif kind in ("f", "l"):
            sg = st.mem.get(("s", x))
            if sg is None:
                bad("links", "child list of %s reaches released children" % nid)
                break
            n = st.norm(sg["hi"] - sg["lo"])
            if kind == "l" and not st.must_eq(n, ONE):
                bad("links", "child list of %s enters the sequence %s at its end" % (nid, show_seq(sg["S"])))
                break
            if ("s", x) in seen:
                bad("links", "children %s are reached twice" % show_seq(sg["S"]))
                break
            seen.add(("s", x))
            if not same(st, sg["up"], me):
                bad("links", "children %s[%r..%r] do not name their parent %s" % (show_seq(sg["S"]), sg["lo"], sg["hi"], nid))
            if not same(st, sg["left"], prev):
                bad("links", "children %s[%r..]: previous-sibling link does not match the order" % (show_seq(sg["S"]), sg["lo"]))
            items.append(("seg", sg["S"], sg["lo"], sg["hi"]))
            deg = deg + n
            tot = tot + st.W(sg["S"], st.norm(sg["hi"])) - st.W(sg["S"], st.norm(sg["lo"]))
            prev = SOME(last(x))
            cur = sg["right"]
        else:
            bad("links", "child list of %s holds an unknown pointer" % nid)
            break
    if not same(st, tail, prev):
        bad("links", "last child of %s is not the end of its list" % nid)
    return items, st.norm(deg), st.norm(tot)


def walk_node(st, nid, bad, seen):
    """checks a whole concrete subtree; returns (items, degree, descendants)"""
    res = walk_kids(st, nid, bad, seen)
    r = rec(st, nid)
    if res is None:
        dg, ds = size_of_rec(r)
        return None, st.norm(dg), st.norm(ds)
    items, deg, tot = res
    dg, ds = size_of_rec(r)
    if not st.must_eq(dg, deg):
        bad("sizes", "degree of %s is %r but it has %r children" % (nm(st, nid), st.norm(dg), deg))
    if not st.must_eq(ds, tot):
        bad("sizes", "descendant count of %s is %r but it has %r" % (nm(st, nid), st.norm(ds), tot))
    check_datum(st, nid, bad)
    return items, deg, tot


def nm(st, nid):
    r = rec(st, nid)
    return "%s=%s[%r]" % (nid, show_seq(r["src"][0]), r["src"][1])


def check_datum(st, nid, bad):
    r = rec(st, nid)
    d = getf(st, nid, "data")
    if isinstance(d, Lazy):
        return
    if r["dead"]:
        bad("data", "the datum of reachable node %s was released" % nm(st, nid))
        return
    exp = r.get("datum", ("e",) + r["src"])
    names = [k for k, v in L.DV.items() if v == d.v]
    kind = names[0]
    if r["hidden"]:
        if not (kind in ("ScatteredNone", "PiledNone")):
            bad("data", "hidden root %s lost its marker" % nm(st, nid))
        ow = d.f[L.DF[kind]["owner"]] if kind in ("ScatteredNone", "PiledNone") else None
    else:
        if kind not in ("Scattered", "Piled"):
            bad("data", "node %s lost its datum" % nm(st, nid))
            return
        x = d.f[L.DF[kind]["data"]]
        if norm_val(st, x) != norm_val(st, exp):
            bad("data", "node %s holds the wrong datum %r instead of %r" % (nm(st, nid), x, exp))
        ow = d.f[L.DF[kind]["owner"]]
    k = r["kind"]
    if ow is not None:
        if k == "sc":
            if not (isinstance(ow, P) and st.nptr(ow).r == ("n", nid)) or not kind.startswith("Scattered"):
                bad("data", "node %s does not name its own storage" % nm(st, nid))
        elif is_tag(k, "pl"):
            if not (isinstance(ow, P) and ow.r == ("v", k[1])) or not kind.startswith("Piled"):
                bad("data", "node %s does not name the buffer it lives in" % nm(st, nid))
    return


def norm_val(st, v):
    if isinstance(v, Lin):
        return st.norm(v)
    if isinstance(v, A):
        return A(v.v, tuple(norm_val(st, x) for x in v.f))
    if isinstance(v, P):
        v = st.nptr(v)
        return P(v.r, tuple(norm_val(st, x) if isinstance(x, (Lin, tuple)) else x for x in v.p), norm_val(st, v.m))
    if isinstance(v, tuple):
        return tuple(norm_val(st, x) for x in v)
    return v


def flat(st, items):
    """normalised list of item intervals: pristine nodes become intervals, neighbours are merged"""
    out = []
    for it in items:
        if it[0] == "node":
            nid = it[1]
            S, i = rec(st, nid)["src"]
            sub = it[2]
            if sub is not None:
                f = flat(st, sub)
                exp = [] if st.deg(S, i) == ZERO else [("seg", ("k", st.norm_seq(S), st.norm(i)), ZERO, st.deg(S, i))]
                if f == exp and "datum" not in rec(st, nid):
                    it = ("seg", S, i, i + 1)
                else:
                    it = ("mod", st.norm_seq(S), st.norm(i), tuple(f))
            else:
                it = ("seg", S, i, i + 1)
        if it[0] == "seg":
            S, lo, hi = st.norm_seq(it[1]), st.norm(it[2]), st.norm(it[3])
            if lo == hi:
                continue
            if out and out[-1][0] == "seg" and out[-1][1] == S and out[-1][3] == lo:
                out[-1] = ("seg", S, out[-1][2], hi)
                continue
            it = ("seg", S, lo, hi)
        out.append(it)
    return out


def norm_items(st, items):
    out = []
    for it in items:
        if it[0] == "seg":
            S, lo, hi = st.norm_seq(it[1]), st.norm(it[2]), st.norm(it[3])
            if lo == hi or st.must_eq(lo, hi):
                continue
            if out and out[-1][0] == "seg" and out[-1][1] == S and out[-1][3] == lo:
                out[-1] = ("seg", S, out[-1][2], hi)
            else:
                out.append(("seg", S, lo, hi))
        else:
            out.append(("mod", st.norm_seq(it[1]), st.norm(it[2]), tuple(norm_items(st, it[3]))))
    return out


def show_items(items):
    s = []
    for it in items:
        if it[0] == "seg":
            s.append("%s[%r..%r)" % (show_seq(it[1]), it[2], it[3]))
        else:
            s.append("%s[%r]{%s}" % (show_seq(it[1]), it[2], show_items(it[3])))
    return ", ".join(s) or "(empty)"
