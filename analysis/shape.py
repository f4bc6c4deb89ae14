"""Exit analysis: well-formedness of the final heap, ownership accounting and shape extraction."""
from core import *
import heap as H
from heap import rec, getf, NP, is_none, opt_ptr, same, nid_ptr, nm
from loops import compress, logs_equal, show_ev


class Survey:
    def __init__(self, ip, st, bad, owners=()):
        self.ip = ip
        self.st = st
        self.bad = bad
        self.owners = list(owners)   # (kind, nid) found in values that are still alive
        self.seen = {}               # nid -> parent nid or None
        self.segs = {}               # sid -> parent nid
        self.items = {}              # nid -> list of items or None (children untouched)
        self.totals = {}
        self.tops = []

    # ------------------------------------------------------------ structure
    def settle(self):
        """a piled node whose datum marker was taken away gave up its place in the buffer"""
        st = self.st
        for k in list(st.mem):
            if k[0] == "n" and st.mem[k]["st"] == "live" and is_tag(st.mem[k]["kind"], "pl"):
                d = getf(st, k[1], "data")
                if isinstance(d, A) and d.v == H.L.DV["None"]:
                    H.upd(st, k[1], st="dropped")

    def run(self):
        st = self.st
        self.settle()
        live = [k[1] for k in list(st.mem) if k[0] == "n" and st.mem[k]["st"] == "live" and not st.mem[k].get("limbo")]
        for nid in live:
            if nid in self.seen:
                continue
            top = self.climb(nid)
            if top is None or top in self.seen:
                continue
            self.top(top)
        for nid in live:
            if nid not in self.seen:
                self.bad("links", "node %s is no longer reachable from its tree" % nm(st, nid))
        for k in list(st.mem):
            if k[0] == "s" and k[1] not in self.segs:
                sg = st.mem[k]
                if not st.must_eq(sg["lo"], sg["hi"]) and not sg.get("limbo"):
                    self.bad("links", "children %s[%r..%r) are no longer reachable" % (show_seq(sg["S"]), st.norm(sg["lo"]), st.norm(sg["hi"])))
        return self

    def climb(self, nid):
        st = self.st
        path = {nid}
        cur = nid
        while True:
            r = rec(st, cur)
            up = getf(st, cur, "up")
            if isinstance(up, Lazy) or is_none(up):
                return cur
            p = st.nptr(up.f[0]).r
            if p[0] == "a":
                a = st.mem.get(p)
                if a is None:
                    self.bad("links", "parent of %s was released" % nm(st, cur))
                    return cur
                if a["up"] is None or isinstance(a["up"], Lazy) or is_none(a["up"]):
                    return cur      # the chain on top is checked together with cur
                p = st.nptr(a["up"].f[0]).r
            if p[0] != "n" or p not in st.mem or rec(st, p[1])["st"] != "live":
                self.bad("links", "parent link of %s names a released node" % nm(st, cur))
                return cur
            cur = p[1]
            if cur in path:
                self.bad("links", "parent links of %s form a cycle" % nm(st, cur))
                return None
            path.add(cur)

    def top(self, nid):
        st = self.st
        r = rec(st, nid)
        self.tops.append(nid)
        self.seen[nid] = None
        up, pv, nx = getf(st, nid, "up"), getf(st, nid, "prev"), getf(st, nid, "next")
        if isinstance(up, Lazy):
            if not (isinstance(pv, Lazy) and isinstance(nx, Lazy)):
                self.bad("links", "sibling links of %s were changed" % nm(st, nid))
        elif is_none(up):
            for what, v in (("previous", pv), ("next", nx)):
                if isinstance(v, Lazy) or not is_none(v):
                    self.bad("root", "root %s has a %s sibling" % (nm(st, nid), what))
        self.visit(nid)
        if not isinstance(up, Lazy) and not is_none(up):
            # a chain on top
            self.chain(st.nptr(up.f[0]).r, ("n", nid))

    def chain(self, a, child):
        st = self.st
        r = st.mem[a]
        c = st.root(r["child"]) if r["child"] is not None else None
        if c != child:
            self.bad("links", "ancestor of %s does not lead back to it" % (child,))
            return ZERO
        nid = child[1]
        d = st.norm(self.totals[nid] - rec(st, nid)["desc0"])
        if not st.must_eq(d, r["delta"]):
            self.bad("sizes", "descendant counts of the ancestors changed by %r instead of %r" % (st.norm(r["delta"]), d))
        return d

    def visit(self, nid):
        """-> total number of descendants"""
        st = self.st
        r = rec(st, nid)
        dg, ds = H.size_of_rec(r)
        if H.kids_pristine(st, nid):
            if r["kids"] == "lazy":
                self.items[nid] = None
                S, i = r["src"]
                deg, tot = st.deg(S, i), st.norm(st.cnt(S, i) - 1)
            elif is_tag(r["kids"], "mid"):
                c = st.root(r["kids"][1])
                self.items[nid] = None
                deg = r["deg0"]
                tot = r["desc0"]
                me = ("n", nid)
                if c[0] == "n":
                    cid = c[1]
                    up = getf(st, cid, "up")
                    if isinstance(up, Lazy) or is_none(up) or st.nptr(up.f[0]).r != me:
                        self.bad("links", "child %s lost its parent %s" % (nm(st, cid), nm(st, nid)))
                    elif not (isinstance(getf(st, cid, "prev"), Lazy) and isinstance(getf(st, cid, "next"), Lazy)):
                        self.bad("links", "sibling links of %s were changed but not its parent" % nm(st, cid))
                    elif cid in self.seen:
                        self.bad("links", "node %s is reached twice" % nm(st, cid))
                    else:
                        self.seen[cid] = nid
                        t = self.visit(cid)
                        tot = st.norm(tot + t - rec(st, cid)["desc0"])
                elif c[0] == "a":
                    a = st.mem.get(c)
                    if a is None or a["up"] is None or is_none(a["up"]) or st.nptr(a["up"].f[0]).r != me:
                        self.bad("links", "the ancestors below %s lost their parent" % nm(st, nid))
                    else:
                        low = st.root(a["child"])
                        if low[0] == "n" and low[1] not in self.seen:
                            self.seen[low[1]] = nid
                            self.visit(low[1])
                            tot = st.norm(tot + self.chain(c, low))
            else:
                raise Inconclusive("children of %s" % nm(st, nid))
        else:
            items, deg, tot = self.kids(nid)
            self.items[nid] = items
        if not st.must_eq(dg, deg):
            self.bad("sizes", "degree of %s is %r but it has %r children" % (nm(st, nid), st.norm(dg), st.norm(deg)))
        if not st.must_eq(ds, tot):
            self.bad("sizes", "descendant count of %s is %r but it has %r descendants" % (nm(st, nid), st.norm(ds), st.norm(tot)))
        self.totals[nid] = tot
        H.check_datum(st, nid, self.bad)
        return tot

    def kids(self, nid):
        st, bad = self.st, self.bad
        head, tail = getf(st, nid, "head"), getf(st, nid, "tail")
        if isinstance(head, Lazy) or isinstance(tail, Lazy):
            bad("links", "only one end of the child list of %s was updated" % nm(st, nid))
            return [], ZERO, ZERO
        items = []
        deg, tot = ZERO, ZERO
        prev = NONE
        cur = head
        me = SOME(nid_ptr(nid))
        steps = 0
        while not is_none(cur):
            steps += 1
            if steps > 80:
                bad("links", "child list of %s does not end" % nm(st, nid))
                break
            p = st.nptr(cur.f[0])
            kind, x = p.r
            if kind == "n":
                if ("n", x) not in st.mem or rec(st, x)["st"] != "live":
                    bad("links", "child list of %s reaches the released node %s" % (nm(st, nid), x))
                    break
                if x in self.seen:
                    bad("links", "node %s is reached twice (cycle or shared child)" % nm(st, x))
                    break
                self.seen[x] = nid
                pv, nx, up = getf(st, x, "prev"), getf(st, x, "next"), getf(st, x, "up")
                if isinstance(up, Lazy) or not same(st, up, me):
                    bad("links", "child %s does not name its parent %s" % (nm(st, x), nm(st, nid)))
                if isinstance(pv, Lazy) or not same(st, pv, prev):
                    bad("links", "child %s: previous-sibling link does not match the order" % nm(st, x))
                t = self.visit(x)
                items.append(("node", x))
                deg = deg + 1
                tot = tot + t + 1
                prev = SOME(nid_ptr(x))
                if isinstance(nx, Lazy):
                    bad("links", "child %s: next-sibling link unknown" % nm(st, x))
                    break
                cur = nx
            elif kind in ("f", "l"):
                sg = st.mem.get(("s", x))
                if sg is None:
                    bad("links", "child list of %s reaches released children" % nm(st, nid))
                    break
                n = st.norm(sg["hi"] - sg["lo"])
                if kind == "l" and not st.must_eq(n, ONE):
                    bad("links", "child list of %s enters the sequence %s at its end" % (nm(st, nid), show_seq(sg["S"])))
                    break
                if x in self.segs:
                    bad("links", "children %s are reached twice" % show_seq(sg["S"]))
                    break
                self.segs[x] = nid
                if not same(st, sg["up"], me):
                    bad("links", "children %s[%r..%r) do not name their parent %s" % (show_seq(sg["S"]), st.norm(sg["lo"]), st.norm(sg["hi"]), nm(st, nid)))
                if not same(st, sg["left"], prev):
                    bad("links", "children %s[%r..]: previous-sibling link does not match the order" % (show_seq(sg["S"]), st.norm(sg["lo"])))
                items.append(("seg", sg["S"], sg["lo"], sg["hi"]))
                deg = deg + n
                tot = tot + st.W(sg["S"], st.norm(sg["hi"])) - st.W(sg["S"], st.norm(sg["lo"]))
                prev = SOME(H.last(x))
                cur = sg["right"]
            else:
                bad("links", "child list of %s holds an unknown pointer" % nm(st, nid))
                break
        if not same(st, tail, prev):
            bad("links", "last child of %s is not the end of its list" % nm(st, nid))
        return items, st.norm(deg), st.norm(tot)

    # ------------------------------------------------------------ description of shapes
    def kid_items(self, nid):
        """normalised items of the children of nid; None when they were never touched"""
        it = self.items.get(nid)
        st = self.st
        if it is None:
            r = rec(st, nid)
            if r["kids"] == "lazy":
                S, i = r["src"]
                d = st.deg(S, i)
                return [] if st.must_eq(d, ZERO) else [("seg", st.norm_seq(("k", S, i)), ZERO, d)]
            return None
        out = []
        for x in it:
            if x[0] == "node":
                x = self.desc(x[1])
            push_item(st, out, x)
        return out

    def desc(self, nid):
        st = self.st
        r = rec(st, nid)
        S, i = r["src"]
        S, i = st.norm_seq(S), st.norm(i)
        k = self.kid_items(nid)
        d = H.norm_val(st, r.get("datum", ("e",) + r["src"]))
        d0 = ("e", S, i)
        if r.get("new"):
            return ("new", d, tuple(k))
        if k is None:
            return ("seg", S, i, st.norm(i + 1))
        if r.get("chain"):
            m = r.get("midlen")
            c = self.ctx_child(nid)
            if m is not None and c is not None:
                return ("ctx", S, i, c)
            return ("mod", S, i, d if d != d0 else None, tuple(k))
        exp = [] if st.must_eq(st.deg(S, i), ZERO) else [("seg", st.norm_seq(("k", S, i)), ZERO, st.deg(S, i))]
        if k == exp and d == d0 and r["hidden"] is not True:
            return ("seg", S, i, st.norm(i + 1))
        if k == exp and d == d0 and r["src"][1] == ZERO:
            return ("seg", S, i, st.norm(i + 1))
        return ("mod", S, i, d if d != d0 else None, tuple(k))

    def ctx_child(self, nid):
        """an ancestor whose child list is what it was: left siblings, the node, right siblings"""
        st = self.st
        r = rec(st, nid)
        k = self.kid_items(nid)
        a, b = r["midlen"]
        a, b = st.norm(a), st.norm(b)
        k = list(k)
        if a != ZERO:
            if not k or k[0] != ("seg", ("L", nid), ZERO, a):
                return None
            k.pop(0)
        if b != ZERO:
            if not k or k[-1] != ("seg", ("R", nid), ZERO, b):
                return None
            k.pop()
        return k[0] if len(k) == 1 else None

    def owner_counts(self):
        cnt = {}
        for kind, nid in self.owners:
            cnt.setdefault(nid, []).append(kind)
        return cnt

    # ------------------------------------------------------------ counts
    def counts(self):
        """strong counts of live nodes and buffer counts agree with what owns them"""
        st, bad = self.st, self.bad
        own = self.owner_counts()
        km = H.kmode(st)
        for k in list(st.mem):
            if k[0] != "n":
                continue
            r = st.mem[k]
            nid = k[1]
            if r.get("limbo"):
                continue
            strong = len([x for x in own.get(nid, []) if x in ("tree", "forest", "strong")])
            weak = len([x for x in own.get(nid, []) if x == "weak"])
            if r["st"] != "live":
                if strong:
                    bad("release", "a live owner names the released node %s" % nm(st, nid))
                continue
            S, i = r["src"]
            listed = False
            ext = False
            if nid in self.seen:
                up = getf(st, nid, "up")
                if self.seen[nid] is not None:
                    listed = True
                elif isinstance(up, Lazy) or not is_none(up):
                    listed = None   # context unknown
                elif r.get("ext", True) and r["listed"] is False and not r.get("new"):
                    ext = True
            rc = r["rc"]
            if listed is None:
                if isinstance(rc, Lazy):
                    continue
                # count is relative to an unknown owner
                exp = None
                d = st.norm(rc - (r.get("rc_ext", ONE)))
                exp = r.get("rc_ext", ONE) + strong + H.kappa(st, S, i)
                listed = True
            exp = const(strong) + H.kappa(st, S, i) + (ONE if listed or (ext and not km) else ZERO)
            if r.get("new"):
                exp = const(strong) + (ONE if listed else ZERO)
            if strong and [x for x in own[nid] if x in ("tree", "forest")] and (listed or len([x for x in own[nid] if x in ("tree", "forest")]) > 1):
                bad("release", "node %s has two owners" % nm(st, nid))
                continue
            if exp == ZERO and not ext:
                bad("leak", "node %s has no owner left but was not released" % nm(st, nid))
                continue
            if isinstance(rc, Lazy):
                continue
            if not st.must_eq(rc, exp):
                bad("count", "strong count of %s is %r but it has %r owners" % (nm(st, nid), st.norm(rc), st.norm(exp)))
            w = st.norm(r["wk"] - weak)
            if r["kind"] == "sc" and w != ZERO:
                bad("count", "weak count of %s changed by %r without a handle" % (nm(st, nid), w))
        for k in list(st.mem):
            if k[0] != "v":
                continue
            pl = st.mem[k]
            tot = pl["rest"]
            wk = ZERO
            alive = False
            for i, nid in pl["slots"]:
                r = rec(st, nid)
                weak = len([x for x in own.get(nid, []) if x == "weak"])
                wk = wk + weak + r.get("xweak", ZERO)
                if r["st"] == "live":
                    rc = r["rc"]
                    tot = tot + (ONE if isinstance(rc, Lazy) else rc)
                    alive = True
            tot = st.norm(tot + wk)
            if pl["st"] != "live":
                if alive:
                    bad("release", "node buffer %s was released while nodes live in it" % k[1])
                elif not st.must_eq(tot, ZERO):
                    bad("release", "node buffer %s was released while %r nodes or handles need it" % (k[1], tot))
                continue
            ref = st.norm(H.pile_ref(st, k[1]))
            if not st.must_eq(ref, tot):
                bad("count", "count of node buffer %s is %r but %r nodes or handles need it" % (k[1], ref, tot))
            elif not st.prove_ge0(ref - 1):
                bad("leak", "node buffer %s is not released although nothing needs it" % k[1])

    def borrows(self):
        st = self.st
        for k in list(st.mem):
            if k[0] == "n":
                r = st.mem[k]
                if r["st"] != "live":
                    continue
                if r["borrow"] != r.get("borrow0", ZERO):
                    self.bad("borrow", "a dynamic borrow of %s is left behind" % nm(st, k[1]))


def push_item(st, out, it):
    if it[0] == "seg":
        S, lo, hi = st.norm_seq(it[1]), st.norm(it[2]), st.norm(it[3])
        if lo == hi or st.must_eq(lo, hi):
            return
        if out and out[-1][0] == "seg" and out[-1][1] == S and (out[-1][3] == lo or st.must_eq(out[-1][3], lo)):
            out[-1] = ("seg", S, out[-1][2], hi)
            return
        it = ("seg", S, lo, hi)
    out.append(it)


def norm_exp(st, items):
    out = []
    for it in items:
        if it[0] == "seg":
            push_item(st, out, it)
        elif it[0] == "mod":
            k = tuple(norm_exp(st, it[4]))
            S, i = st.norm_seq(it[1]), st.norm(it[2])
            d = H.norm_val(st, it[3]) if it[3] is not None else None
            exp = [] if st.must_eq(st.deg(S, i), ZERO) else [("seg", st.norm_seq(("k", S, i)), ZERO, st.deg(S, i))]
            if d is None and list(k) == exp:
                push_item(st, out, ("seg", S, i, i + 1))
            else:
                push_item(st, out, ("mod", S, i, d, k))
        elif it[0] == "new":
            push_item(st, out, ("new", H.norm_val(st, it[1]), tuple(norm_exp(st, it[2]))))
        else:
            push_item(st, out, it)
    return out


def items_equal(st, a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] != y[0]:
            return False
        if x[0] == "seg":
            if x[1] != y[1] or not st.must_eq(x[2], y[2]) or not st.must_eq(x[3], y[3]):
                return False
        elif x[0] == "mod":
            if x[1] != y[1] or not st.must_eq(x[2], y[2]) or x[3] != y[3] or not items_equal(st, x[4], y[4]):
                return False
        elif x[0] == "new":
            if x[1] != y[1] or not items_equal(st, x[2], y[2]):
                return False
        else:
            return False
    return True


def show_items(items):
    if items is None:
        return "(unchanged)"
    s = []
    for it in items:
        if it[0] == "seg":
            if it[3] - it[2] == ONE:
                s.append("%s[%r]" % (show_seq(it[1]), it[2]))
            else:
                s.append("%s[%r..%r)" % (show_seq(it[1]), it[2], it[3]))
        elif it[0] == "mod":
            s.append("%s[%r]%s{%s}" % (show_seq(it[1]), it[2], "" if it[3] is None else "=" + str(it[3]), show_items(it[4])))
        elif it[0] == "new":
            s.append("new %s{%s}" % (it[1], show_items(it[2])))
        else:
            s.append(str(it[0]))
    return ", ".join(s) or "(empty)"


# ------------------------------------------------------------------------------------------------ owners inside of values
def owned(ip, st, ty, v, out, where="value"):
    """collects (kind, nid) for every owning handle inside of a value of type ty"""
    if v is UNINIT or v is None or isinstance(v, (Lin, Lazy)):
        return
    prog = ip.prog
    if ty.k in ("ref", "ptr", "uint", "int", "bool", "char", "fndef", "fnptr", "never", "str"):
        return
    if ty.k == "adt":
        p = ty.path
        if p in ("trees::Tree", "trees::Forest", "trees::tree::Tree", "trees::forest::Forest"):
            q = v.f[0] if isinstance(v, A) else v
            if isinstance(q, P):
                q = ip.resolve(st, q)
                out.append(("tree" if "Tree" in p else "forest", q.r[1]))
            return
        if p.endswith("::Rc") and "std" in p or p.endswith("rc::Rc"):
            if "Rc" == p.split("::")[-1] and not p.startswith("trees"):
                q = ip.resolve(st, v)
                out.append(("strong", q.r[1]))
                return
        if p.split("::")[-1] == "Weak" and not p.startswith("trees"):
            out.append(("weak", v[1]))
            return
        if p.endswith("::PiledRcNode") or p.endswith("::PiledWeakNode"):
            vp, idx = v.f[0], v.f[1]
            s = ip.models.pile_slot(ip, st, st.root(vp.r)[1], idx)
            out.append(("strong" if p.endswith("PiledRcNode") else "weak", s.r[1]))
            return
        if p.split("::")[-1] in ("Vec", "VecDeque") and is_tag(v, "vec"):
            et = prog.ty(ty.d["args"][0])
            for it in st.mem.get(v, ()):
                if it[0] == "e":
                    owned(ip, st, et, it[1], out)
                elif it[0] == "r" and et.d["nd"]:
                    raise Inconclusive("unknown number of owners in a vector")
            return
        if p.split("::")[-1] == "Box" and isinstance(v, P):
            r = st.root(v.r)
            if r[0] == "o":
                owned(ip, st, prog.ty(ty.d["args"][0]), st.mem[r], out)
            return
        if isinstance(v, A) and ty.d.get("v"):
            if v.v < len(ty.d["v"]):
                fs = ty.d["v"][v.v]["f"]
                for (n, t), x in zip(fs, v.f):
                    owned(ip, st, prog.ty(t), x, out)
            return
        # transparent wrappers
        if ty.d.get("args"):
            return
        return
    if ty.k in ("tuple", "closure") and isinstance(v, A):
        for t, x in zip(ty.d["f"], v.f):
            t = t[1] if isinstance(t, (list, tuple)) else t
            owned(ip, st, prog.ty(t), x, out)


def data_in(v, out):
    """element values inside of a plain value"""
    if isinstance(v, A):
        for x in v.f:
            data_in(x, out)
    elif is_tag(v, "e") or is_tag(v, "cl"):
        out.append(v)
