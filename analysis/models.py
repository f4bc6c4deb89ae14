"""Models of the standard library (contracts of documented behaviour) and of the opaque element type."""
import re
from core import *
import heap as H
from heap import NP
from interp import is_transparent

CELL = ("CELL",)


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            # keep a leading "<X as Y>" qualifier, drop generic argument lists
            if d == 0 and (i == 0 or (not (p[i - 1].isalnum() or p[i - 1] in ":_>"))):
                out.append(c)
                i += 1
                continue
            d += 1
        elif c == ">" and p[i - 1] != "-":
            if d == 0:
                out.append(c)
                i += 1
                continue
            d -= 1
            i += 1
            continue
        if d == 0:
            out.append(c)
        i += 1
    s = "".join(out).replace("::::", "::")
    s = re.sub(r"::(?=$|>| )", "", s)
    s = re.sub(r"\b(core|alloc)::(?!alloc::)", "std::", s)
    return s


class Ev:
    """helpers"""


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.tab = dict(TABLE)
        self.rx = list(REGEX)
        self.unw = False

    def find(self, fn):
        s = strip_generics(fn.path)
        h = self.tab.get(s)
        if h is not None:
            return h
        for r, h in self.rx:
            if r.match(s):
                return h
        return None

    # ------------------------------------------------------------- hooks of the interpreter
    def nav(self, ip, st, v, s, p):
        if isinstance(v, P) and s == 0:
            return v
        if is_tag(v, "e") or is_tag(v, "cl"):
            return None
        return None

    def upd_nav(self, ip, st, v, path, new, p):
        return None

    def as_ptr(self, ip, st, v):
        return v

    def discr(self, ip, st, v, ty):
        return None

    def named_const(self, ip, st, c, ty):
        n = c["name"]
        if n.endswith("MAX"):
            return const((1 << 64) - 1)
        return None

    def ptr_cast(self, ip, st, v, ty, fty):
        if isinstance(v, P) and v.m is not None and ty.k in ("ptr", "ref"):
            to = self.prog.ty(ty.d["to"])
            if to.k not in ("slice", "str", "dyn"):
                return P(v.r, v.p, None)
        # pointer to the first field and pointer to the whole are the same address for node cells
        return v

    def ptr_offset(self, ip, st, a, b):
        b = st.norm(b)
        if b == ZERO:
            return a
        if isinstance(a, P):
            r = st.root(a.r)
            if r[0] == "pb" and not a.p:
                return P(r, (("i", b),))
            if r[0] in ("pb", "vec") and len(a.p) == 1 and is_tag(a.p[0], "i"):
                return P(r, (("i", st.norm(a.p[0][1] + b)),))
            if r[0] == "vec" and not a.p:
                return P(r, (("i", b),))
        raise Inconclusive("pointer arithmetic on %r" % (a,))

    def transmute(self, ip, st, v, ty, fty):
        return v

    def address(self, ip, st, v):
        if isinstance(v, P):
            r = st.root(v.r)
            if r[0] == "n":
                k = H.rec(st, r[1])["kind"]
                if k is None:
                    H.force_data(st, r[1])
                    k = H.rec(st, r[1])["kind"]
                if k[0] == "pl":
                    if v.p != NP and v.p != () and v.p != CELL:
                        raise Inconclusive("address of a part of a node")
                    off = {NP: 1, (): 0, CELL: 0}[v.p]
                    # any offset smaller than the slot size behaves alike under the division by the slot size
                    return atom(("addr", k[1])) + k[2].scale(H.L.shared_size) + off
                return atom(("naddr", r[1]))
            if r[0] in ("f", "l"):
                p = ip.resolve(st, v)
                return self.address(ip, st, p)
            if r[0] == "pb":
                if not v.p:
                    return atom(("addr", r[1]))
                return atom(("addr", r[1])) + v.p[0][1].scale(H.L.shared_size)
        raise Inconclusive("address of %r" % (v,))

    def pile_slot(self, ip, st, pid, i):
        pl = st.mem.get(("v", pid))
        if pl is None or pl["st"] != "live":
            raise Violation("memory", "access to a released node buffer")
        i = st.norm(i)
        for j, nid in pl["slots"]:
            d = st.norm(j - i)
            if d == ZERO:
                return P(("n", nid), ())
        for j, nid in pl["slots"]:
            if st.decide("eq0", st.norm(j - i)):
                return P(("n", nid), ())
        if "table" in pl:
            return pl["table"](ip, st, pid, i)
        raise Violation("bounds", "access to slot %r of a node buffer, which is not that of a node known to exist" % (i,))

    def node_data_written(self, ip, st, nid, r, nv, kw):
        return

    # ------------------------------------------------------------- vectors
    def vec(self, st, v):
        if not is_tag(v, "vec"):
            raise Inconclusive("not a vector: %r" % (v,))
        return st.mem[v]

    def vlen(self, st, items):
        n = ZERO
        for it in items:
            n = n + (ONE if it[0] == "e" else it[2])
        return st.norm(n)

    def vfind(self, ip, st, items, i):
        """-> (position in items, or splits runs)"""
        off = ZERO
        i = st.norm(i)
        tot = self.vlen(st, items)
        # from the back
        o = tot
        for k in range(len(items) - 1, -1, -1):
            it = items[k]
            if it[0] != "e":
                break
            o = st.norm(o - 1)
            if o == i:
                return k
        for k, it in enumerate(items):
            if it[0] == "e":
                if st.norm(off) == i:
                    return k
                off = off + 1
            else:
                off = off + it[2]
        off = ZERO
        for k, it in enumerate(items):
            n = ONE if it[0] == "e" else it[2]
            if st.decide("ge0", off + n - i - 1):
                return k
            off = off + n
        return None

    def unfold_prefix(self, ip, st, v, items, i):
        """materialises elements at the end of a summarised prefix up to index i"""
        n = 0
        while items and items[0][0] == "lz" and st.norm(i - items[0][2]).is_const() and st.norm(i - items[0][2]).c < 0 and n < 4:
            items = st.ghost["lazyvec"](ip, st, v, items[:1]) + items[1:]
            st.put(v, items)
            n += 1
        return items

    def load_vec(self, ip, st, p):
        items = st.mem.get(p.r)
        if items is None:
            raise Violation("memory", "access to a released vector")
        if not p.p:
            raise Inconclusive("load of a whole slice")
        i = p.p[0][1]
        items = self.unfold_prefix(ip, st, p.r, items, i)
        k = self.vfind(ip, st, items, i)
        if k is None:
            raise Violation("bounds", "element %r of a vector of %r" % (i, self.vlen(st, items)))
        it = items[k]
        if it[0] == "lz":
            raise Inconclusive("element inside of an unknown prefix")
        x = it[1]
        if it[0] == "r" and IOTA in all_atoms_of(x):
            from loops import subst
            x = subst(x, {IOTA: st.norm(i - self.vlen(st, items[:k]))})
        return ip.nav(st, st.norm(x) if isinstance(x, Lin) else x, p.p[1:], p)

    def store_vec(self, ip, st, p, new):
        items = st.mem.get(p.r)
        if items is None:
            raise Violation("memory", "access to a released vector")
        i = p.p[0][1]
        items = self.unfold_prefix(ip, st, p.r, items, i)
        k = self.vfind(ip, st, items, i)
        if k is None:
            raise Violation("bounds", "element %r of a vector of %r" % (i, self.vlen(st, items)))
        it = items[k]
        if it[0] == "r":
            # one element of a run becomes known
            from loops import subst
            off = self.vlen(st, items[:k])
            j = st.norm(i - off)
            iota = atom(IOTA)
            parts = [("r", it[1], j), ("e", subst(it[1], {IOTA: j})), ("r", subst(it[1], {IOTA: iota + j + 1}), st.norm(it[2] - j - 1))]
            parts = [x for x in parts if x[0] == "e" or x[2] != ZERO]
            items = items[:k] + tuple(parts) + items[k + 1:]
            k += 0 if parts[0][0] == "e" else 1
            it = items[k]
        if it[0] != "e":
            raise Inconclusive("store into an unknown part of a vector")
        nv = ip.upd_nav(st, it[1], p.p[1:], new, p)
        items = items[:k] + (("e", nv),) + items[k + 1:]
        if "tup" in st.ghost and st.ghost["tup"]["phase"] == "start":
            import tupbuild
            items = tupbuild.merge_numbers(st, items)
        st.put(p.r, items)

    # ------------------------------------------------------------- drops
    def drop(self, ip, st, p, ty, ret, unw):
        n = ty.name
        if ty.k == "adt":
            path = strip_generics(ty.path)
            if ty.path.endswith("opq::Elem"):
                return self.drop_elem(ip, st, p, ty, ret, unw)
            if path == "std::rc::Rc":
                v = ip.load(st, p)
                self.mark_moved(ip, st, p)
                return self.drop_rc(ip, st, v, ret, unw)
            if path == "std::rc::Weak":
                v = ip.load(st, p)
                return self.drop_weak(ip, st, v)
            if path == "std::boxed::Box":
                v = ip.load(st, p)
                return self.drop_box(ip, st, v, ip.prog.ty(ty.d["args"][0]), ret, unw)
            if path in ("std::cell::Ref", "std::cell::RefMut"):
                v = ip.load(st, p)
                self.release_borrow(st, v)
                return False
            if path == "std::cell::RefCell":
                return self.drop_refcell(ip, st, p, ty, ret, unw)
            if path in ("std::vec::Vec", "std::collections::VecDeque"):
                v = ip.load(st, p)
                return self.drop_vec(ip, st, v, ip.prog.ty(ty.d["args"][0]), ret, unw)
            if path in ("std::alloc::Global", "std::fmt::Arguments"):
                return False
        return NotImplemented

    def mark_moved(self, ip, st, p):
        pass

    def choose_panic(self, ip, st, what):
        """True when the unwinding alternative of an opaque call is taken"""
        if not ip.unwind or st.ghost.get("panic"):
            return False
        f = st.frame
        while f is not None:
            if isinstance(f.note, tuple) and len(f.note) > 2 and f.note[2] == "calm":
                return False
            f = f.parent
        c = st.ghost.get("pchoice")
        if c is None:
            def setc(x):
                def go(s):
                    s.ghost = dict(s.ghost)
                    s.ghost["pchoice"] = x
                return go
            raise Fork([setc(0), setc(1)], "%s panics?" % what)
        st.ghost = dict(st.ghost)
        del st.ghost["pchoice"]
        if c:
            st.ghost["panic"] = what
        return bool(c)

    def drop_elem(self, ip, st, p, ty, ret, unw):
        v = ip.load(st, p)
        if v is UNINIT:
            raise Violation("release", "drop of a moved-out datum")
        st.event("drop", H.norm_val(st, v))
        if self.choose_panic(ip, st, "Drop of the element"):
            return ip.unwind_to(st, unw)
        return False

    def cell_nid(self, ip, st, p):
        """node id of a pointer to the RefCell/Rc contents"""
        if not isinstance(p, P):
            raise Inconclusive("not a cell pointer %r" % (p,))
        p = ip.resolve(st, p)
        if p.r[0] != "n" or p.p not in (CELL, ()):
            raise Inconclusive("cell pointer %r" % (p,))
        return p.r[1]

    def rc_of(self, ip, st, nid):
        r = H.rec(st, nid)
        if isinstance(r["rc"], Lazy):
            ip.force_rc(st, nid)
            r = H.rec(st, nid)
        return r["rc"]

    def drop_rc(self, ip, st, v, ret, unw):
        nid = self.cell_nid(ip, st, v)
        r = ip.node_live(st, nid, v)
        if r["kind"] is None:
            H.force_data(st, nid)
        if H.rec(st, nid)["kind"] != "sc":
            raise Violation("release", "a node that is not in a scattered allocation is released as one")
        rc = self.rc_of(ip, st, nid)
        if st.decide("eq0", rc - 1):
            H.upd(st, nid, rc=ZERO)
            return self.drop_node_value(ip, st, nid, ret, unw, "freed")
        H.upd(st, nid, rc=st.norm(rc - 1))
        return False

    def drop_node_value(self, ip, st, nid, ret, unw, state):
        glue = H.L.node.d["drop"]
        fn = ip.prog.fns[glue]

        def then(ip2, s, v):
            H.upd(s, nid, st=state)
            return v
        ip.call_fn(st, fn, [H.nid_ptr(nid)], None, ret, unw, note=("then", then, "free"))
        return False

    def drop_refcell(self, ip, st, p, ty, ret, unw):
        pp = ip.resolve(st, p)
        if pp.r[0] == "n":
            nid = pp.r[1]
            ip.node_live(st, nid, p)
            return self.drop_node_value(ip, st, nid, ret, unw, "dropped")
        v = ip.load(st, p)
        if is_tag(v, "rcell"):
            inner = ip.prog.ty(ty.d["args"][0])
            if not inner.d["nd"]:
                return False
        raise Inconclusive("drop of a RefCell outside of a node")

    def drop_weak(self, ip, st, v):
        if is_tag(v, "wk"):
            nid = v[1]
            r = H.rec(st, nid)
            H.upd(st, nid, wk=st.norm(r["wk"] - 1))
            return False
        raise Inconclusive("drop of Weak")

    def drop_box(self, ip, st, v, inner, ret, unw):
        if not isinstance(v, P):
            raise Inconclusive("drop of Box")
        root = st.root(v.r)
        if root[0] == "v":
            pl = st.mem.get(root)
            if pl is None or pl["st"] != "live":
                raise Violation("release", "a node buffer is released twice")

            def then(ip2, s, x):
                H.set_pile(s, root[1], st="freed")
                return x
            fn = ip.prog.fns[inner.d["drop"]]
            ip.call_fn(st, fn, [P(root)], None, ret, unw, note=("then", then, "free"))
            return False
        if root[0] == "o":
            if root not in st.mem:
                raise Violation("release", "a box is released twice")

            def then(ip2, s, x):
                s.rm(root)
                return x
            if inner.d["nd"]:
                fn = ip.prog.fns[inner.d["drop"]]
                ip.call_fn(st, fn, [P(root)], None, ret, unw, note=("then", then, "free"))
            else:
                st.rm(root)
            return False
        raise Inconclusive("drop of a Box of %r" % (root,))

    def drop_vec(self, ip, st, v, inner, ret, unw):
        if is_tag(v, "pbuf"):
            pl = st.mem[("v", v[1])]
            if pl.get("len_now") is not None and st.must_eq(pl["len_now"], ZERO):
                return False
            for i, nid in pl["slots"]:
                r = H.rec(st, nid)
                if r["st"] != "live":
                    raise Violation("release", "dropping the node buffer drops node %s a second time" % H.nm(st, nid))
            raise Violation("release", "dropping the node buffer drops its nodes' data again")
        if not is_tag(v, "vec"):
            raise Inconclusive("drop of vector %r" % (v,))
        items = st.mem.get(v)
        if items is None:
            raise Violation("release", "a vector is released twice")
        if not inner.d["nd"]:
            st.rm(v)
            return False
        # drop the elements front to back
        if not items:
            st.rm(v)
            return False
        it = items[0]
        if it[0] != "e":
            raise Inconclusive("drop of a vector with an unknown part")
        tmp = ("o", st.fresh("t"))
        st.put(tmp, it[1])
        st.put(v, items[1:])
        glue = ip.prog.fns[inner.d["drop"]]
        me = self

        def then(ip2, s, x):
            s.rm(tmp)
            return x
        # continue with the rest afterwards: implemented as a loop over frames
        fr = st.frame

        def again(ip2, s, x):
            s.rm(tmp)
            return x
        if len(items) == 1:
            def last(ip2, s, x):
                s.rm(tmp)
                s.rm(v)
                return x
            self.run_drop(ip, st, inner, P(tmp), ret, unw, last)
            return False

        def nxt(ip2, s, x):
            s.rm(tmp)
            me.drop_vec(ip2, s, v, inner, ret, unw)
            return ("pushed",)
        self.run_drop(ip, st, inner, P(tmp), ret, unw, nxt)
        return False

    def run_drop(self, ip, st, ty, p, ret, unw, then):
        """drop the value at p; `then` runs afterwards"""
        fn = ip.prog.fns[ty.d["drop"]]
        for pred, handler in ip.summaries:
            if pred(ip, st, fn):
                was, ip.unwind = ip.unwind, False
                try:
                    res = handler(ip, st, fn, [p], [ty], ty, unw)
                finally:
                    ip.unwind = was
                if res is not NotImplemented:
                    then(ip, st, UNIT)
                    return
        # the other elements are dropped whether or not this one panics
        ip.call_fn(st, fn, [p], None, ret, unw, note=("then", then, "calm"))

    def release_borrow(self, st, v):
        _, target, nid, mode = v
        r = H.rec(st, nid)
        b = r["borrow"]
        if mode == "w":
            H.upd(st, nid, borrow=ZERO)
        else:
            if not isinstance(b, Lin):
                raise Violation("borrow", "shared guard released while exclusively borrowed")
            H.upd(st, nid, borrow=st.norm(b - 1))


TABLE = {}
REGEX = []


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            REGEX.append((re.compile(p + r"\Z"), f))
        return f
    return d


def push_then(c, fn, args, then):
    c.ip.call_fn(c.st, fn, args, c.dp, c.target, c.unw, note=("then", then))
    return ("pushed",)


# ----------------------------------------------------------------- panics
@rx(r"std::panicking::.*", r"std::option::unwrap_failed", r"std::option::expect_failed", r"std::result::unwrap_failed",
    r"std::rt::begin_panic.*", r"std::cell::panic_already.*", r"std::slice::index::slice_.*fail.*", r"std::rt::panic.*",
    r"std::process::abort", r"std::intrinsics::abort", r"std::alloc::handle_alloc_error", r"std::cell::panic.*",
    r"std::rt::.*panic.*")
def m_panic(c):
    raise Panic(strip_generics(c.fn.path))


@rx(r".*::precondition_check")
def m_pre(c):
    return UNIT


# ----------------------------------------------------------------- mem / ptr
@model("std::mem::forget", "std::mem::ManuallyDrop::new")
def m_forget(c):
    if c.fn.item == "forget":
        return UNIT
    return c.args[0]


@model("std::mem::replace", "std::ptr::replace")
def m_replace(c):
    old = c.ip.load(c.st, c.args[0])
    c.ip.store(c.st, c.args[0], c.args[1])
    return old


@model("std::mem::swap", "std::ptr::swap")
def m_swap(c):
    a = c.ip.load(c.st, c.args[0])
    b = c.ip.load(c.st, c.args[1])
    c.ip.store(c.st, c.args[0], b)
    c.ip.store(c.st, c.args[1], a)
    return UNIT


@rx(r"std::ptr::read", r"std::intrinsics::read_via_copy", r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::read",
    r"std::ptr::NonNull::read", r"std::mem::ManuallyDrop::take", r"std::intrinsics::volatile_load")
def m_read(c):
    return c.ip.load(c.st, c.args[0])


@rx(r"std::ptr::write", r"std::intrinsics::write_via_move", r"std::ptr::mut_ptr::<impl \*mut T>::write", r"std::ptr::NonNull::write")
def m_write(c):
    c.ip.store(c.st, c.args[0], c.args[1])
    return UNIT


@rx(r"std::ptr::NonNull::(as_ptr|as_ref|as_mut|cast|new_unchecked|from_ref|from_mut)", r"<std::ptr::NonNull as std::convert::From>::from",
    r"<std::ptr::NonNull as std::clone::Clone>::clone", r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(cast|cast_mut|cast_const)",
    r"std::pin::Pin::get_unchecked_mut_never")
def m_nn(c):
    v = c.args[0]
    if c.fn.item in ("as_ref", "as_mut", "clone"):
        # the receiver is a reference to the pointer
        if c.fn.item in ("as_ref", "as_mut", "clone"):
            v = c.ip.load(c.st, v)
    return v


@model("std::ptr::NonNull::new")
def m_nn_new(c):
    v = c.args[0]
    if isinstance(v, P) and v.r[0] == "dangling" and v.r[1] == 0:
        return NONE
    return SOME(v)


@rx(r"std::ptr::NonNull::dangling", r"std::ptr::(null|null_mut|dangling|dangling_mut|without_provenance.*)")
def m_dangling(c):
    return P(("dangling", 0 if "null" in c.fn.item else 8))


@rx(r"std::ptr::(eq|addr_eq)", r"<std::ptr::NonNull as std::cmp::PartialEq>::(eq|ne)", r"<\*(const|mut) T as std::cmp::PartialEq>::(eq|ne)")
def m_ptreq(c):
    a, b = c.args
    if "NonNull" in c.fn.path or c.fn.path.startswith("<*"):
        a, b = c.ip.load(c.st, a), c.ip.load(c.st, b)
    e = c.ip.ptr_eq(c.st, a, b)
    return ONE if e == (c.fn.item != "ne") else ZERO


@rx(r"std::intrinsics::(size_of|min_align_of|align_of)", r"std::mem::(size_of|align_of)", r"std::mem::SizedTypeProperties.*")
def m_sizeof(c):
    t = c.ip.prog.ty(c.fn.targs[0])
    k = "size" if "size" in c.fn.item else "align"
    if t.d.get(k) is None:
        raise Inconclusive("size of %s" % t.name)
    return const(t.d[k])


@model("std::intrinsics::needs_drop", "std::mem::needs_drop")
def m_needsdrop(c):
    return ONE if c.ip.prog.ty(c.fn.targs[0]).d["nd"] else ZERO


@rx(r"std::intrinsics::(assume|cold_path|assert_unchecked|black_box|assert_inhabited|assert_zero_valid|caller_location)",
    r"std::hint::(assert_unchecked|black_box)")
def m_nop(c):
    return UNIT


@model("std::intrinsics::unreachable", "std::hint::unreachable_unchecked")
def m_unreach(c):
    raise Violation("unreachable", "code declared unreachable is reached")


@rx(r"std::intrinsics::(likely|unlikely)", r"std::convert::identity")
def m_id(c):
    return c.args[0]


@rx(r"std::intrinsics::transmute", r"std::intrinsics::transmute_unchecked", r"std::mem::transmute")
def m_transmute(c):
    return c.args[0]


@rx(r"std::intrinsics::atomic_(x?add|xsub|load|store)", r"std::sync::atomic::Atomic::(fetch_add|fetch_sub|load|store|new|into_inner|get_mut)")
def m_atomic(c):
    it = c.fn.item.replace("atomic_x", "fetch_").replace("atomic_", "")
    if it in ("new", "into_inner", "get_mut"):
        return c.args[0]
    old = c.ip.load(c.st, c.args[0])
    if it == "load":
        return old
    if it == "store":
        c.ip.store(c.st, c.args[0], c.args[1])
        return UNIT
    d = c.args[1] if it == "fetch_add" else -c.args[1]
    n = c.st.norm(old + d)
    c.ip.store(c.st, c.args[0], n)
    return old


@rx(r"std::cell::Cell::(get|set|replace|new|take|into_inner|as_ptr|get_mut)", r"std::cell::UnsafeCell::(new|get|into_inner|get_mut|raw_get)")
def m_cell(c):
    it = c.fn.item
    if it == "get" and "UnsafeCell" in c.fn.path:
        return c.args[0]
    if it in ("new", "into_inner", "as_ptr", "get_mut", "raw_get"):
        return c.args[0]
    if it == "get":
        return c.ip.load(c.st, c.args[0])
    if it == "set":
        c.ip.store(c.st, c.args[0], c.args[1])
        return UNIT
    old = c.ip.load(c.st, c.args[0])
    c.ip.store(c.st, c.args[0], c.args[1] if it == "replace" else ZERO)
    return old


@model("std::num::<impl usize>::checked_sub", "std::num::<impl usize>::checked_add")
def m_checked(c):
    a, b = c.args
    if c.fn.item == "checked_sub":
        if c.st.decide("ge0", a - b):
            return SOME(c.st.norm(a - b))
        return NONE
    return SOME(c.st.norm(a + b))


@model("std::num::<impl usize>::saturating_sub")
def m_satsub(c):
    a, b = c.args
    if c.st.decide("ge0", a - b):
        return c.st.norm(a - b)
    return ZERO


@rx(r"std::num::<impl usize>::(wrapping|saturating|unchecked)_(add|sub|mul)", r"<usize as std::iter::Step>::(forward|forward_unchecked)")
def m_wrap(c):
    a, b = c.args
    if "add" in c.fn.item or "forward" in c.fn.item:
        return c.st.norm(a + b)
    if "sub" in c.fn.item:
        r = c.st.norm(a - b)
        if r.is_const() and r.c < 0:
            raise Violation("arithmetic", "subtraction below zero")
        return r
    if a.is_const():
        return c.st.norm(b.scale(a.c))
    return c.st.norm(a.scale(b.c))


# ----------------------------------------------------------------- Rc
@rx(r"std::rc::Rc::(from_raw|into_raw|as_ptr|from_raw_in|into_raw_with_allocator)", r"<std::rc::Rc as std::ops::Deref>::deref", r"<std::rc::Rc as std::convert::AsRef>::as_ref",
    r"<std::rc::Rc as std::borrow::Borrow>::borrow")
def m_rc_raw(c):
    v = c.args[0]
    if c.fn.item in ("deref", "as_ref", "as_ptr", "borrow"):
        v = c.ip.load(c.st, v)
        nid = c.ip.models.cell_nid(c.ip, c.st, v)
        if c.fn.item != "as_ptr":
            c.ip.node_live(c.st, nid, v)
    return v


@model("std::rc::Rc::new")
def m_rc_new(c):
    v = c.args[0]
    if not is_tag(v, "rcell"):
        raise Inconclusive("Rc of something else than a node cell")
    st = c.st
    nid = st.fresh("n")
    st.put(("n", nid), {"val": v[1], "kind": "sc", "borrow": ZERO, "rc": ONE, "weak": ZERO, "src": (("new", nid), ZERO),
                        "st": "live", "hidden": None, "kids": "exp", "deg0": ZERO, "desc0": ZERO, "dead": False,
                        "handles": ZERO, "wk": ZERO, "listed": None, "new": True})
    return P(("n", nid), CELL)


@model("<std::rc::Rc as std::clone::Clone>::clone", "std::rc::Rc::increment_strong_count", "std::rc::Rc::decrement_strong_count")
def m_rc_clone(c):
    v = c.args[0]
    if c.fn.item == "clone":
        v = c.ip.load(c.st, v)
    nid = c.ip.models.cell_nid(c.ip, c.st, v)
    c.ip.node_live(c.st, nid, v)
    if H.rec(c.st, nid)["kind"] is None:
        H.force_data(c.st, nid)
    if H.rec(c.st, nid)["kind"] != "sc":
        raise Violation("memory", "a node that is not in a scattered allocation is used as one")
    if c.fn.item == "decrement_strong_count":
        c.ip.goto(c.st, c.target)
        c.ip.models.drop_rc(c.ip, c.st, v, c.target, c.unw)
        return ("pushed",)
    rc = c.ip.models.rc_of(c.ip, c.st, nid)
    c.ip.shared_write(c.st, ("n", nid), "the reference count")
    H.upd(c.st, nid, rc=c.st.norm(rc + 1))
    return v if c.fn.item == "clone" else UNIT


@model("std::rc::Rc::strong_count")
def m_rc_strong(c):
    v = c.ip.load(c.st, c.args[0])
    nid = c.ip.models.cell_nid(c.ip, c.st, v)
    c.ip.node_live(c.st, nid, v)
    return c.ip.models.rc_of(c.ip, c.st, nid)


def weak_of(c, nid):
    """weak handles of a scattered node: those seen here and, unless the node was made here, any number of others"""
    r = H.rec(c.st, nid)
    if r.get("new"):
        return r["wk"]
    k = atom(("WK", nid))
    c.st.assume_ge0(k)
    return c.st.norm(k + r["wk"]) if c.st.prove_ge0(r["wk"]) else k


@model("std::rc::Rc::weak_count")
def m_rc_weak(c):
    v = c.ip.load(c.st, c.args[0])
    nid = c.ip.models.cell_nid(c.ip, c.st, v)
    c.ip.node_live(c.st, nid, v)
    return weak_of(c, nid)


@model("std::rc::Rc::get_mut")
def m_rc_getmut(c):
    v = c.ip.load(c.st, c.args[0])
    nid = c.ip.models.cell_nid(c.ip, c.st, v)
    rc = c.ip.models.rc_of(c.ip, c.st, nid)
    if c.st.decide("eq0", rc - 1) and c.st.decide("eq0", weak_of(c, nid)):
        return SOME(v)
    return NONE


@model("std::rc::Rc::ptr_eq")
def m_rc_ptreq(c):
    a, b = c.ip.load(c.st, c.args[0]), c.ip.load(c.st, c.args[1])
    return ONE if c.ip.ptr_eq(c.st, a, b) else ZERO


@model("std::rc::Rc::downgrade")
def m_rc_down(c):
    v = c.ip.load(c.st, c.args[0])
    nid = c.ip.models.cell_nid(c.ip, c.st, v)
    c.ip.node_live(c.st, nid, v)
    c.ip.shared_write(c.st, ("n", nid), "the weak count")
    H.upd(c.st, nid, wk=c.st.norm(H.rec(c.st, nid)["wk"] + 1))
    return ("wk", nid)


@model("<std::rc::Weak as std::clone::Clone>::clone")
def m_weak_clone(c):
    v = c.ip.load(c.st, c.args[0])
    H.upd(c.st, v[1], wk=c.st.norm(H.rec(c.st, v[1])["wk"] + 1))
    return v


@model("std::rc::Weak::strong_count")
def m_weak_sc(c):
    v = c.ip.load(c.st, c.args[0])
    return c.ip.models.rc_of(c.ip, c.st, v[1])


@model("std::rc::Weak::upgrade")
def m_weak_up(c):
    v = c.ip.load(c.st, c.args[0])
    nid = v[1]
    if H.rec(c.st, nid)["st"] != "live":
        return NONE
    rc = c.ip.models.rc_of(c.ip, c.st, nid)
    if c.st.decide("eq0", rc):
        return NONE
    c.ip.shared_write(c.st, ("n", nid), "the reference count")
    H.upd(c.st, nid, rc=c.st.norm(rc + 1))
    return SOME(P(("n", nid), CELL))


# ----------------------------------------------------------------- RefCell
@rx(r"std::cell::RefCell::(new|get_mut|as_ptr|into_inner|borrow|borrow_mut|try_borrow|try_borrow_mut|try_borrow_unguarded)")
def m_refcell(c):
    it = c.fn.item
    v = c.args[0]
    st = c.st
    if it == "new":
        return ("rcell", v)
    if it == "into_inner":
        if is_tag(v, "rcell"):
            return v[1]
        raise Inconclusive("RefCell::into_inner")
    nid = c.ip.models.cell_nid(c.ip, st, v)
    p = H.nid_ptr(nid)
    if it == "as_ptr":
        return p
    r = c.ip.node_live(st, nid, v)
    if r["st"] != "live":
        raise Violation("memory", "access to the released node %s" % H.nm(st, nid))
    if it == "get_mut":
        return p
    b = r["borrow"]
    if it == "try_borrow_unguarded":
        if b == "w":
            return A(1, (UNIT,))
        return A(0, (p,))
    if it in ("borrow", "try_borrow"):
        if b == "w":
            if it == "borrow":
                raise Panic("already mutably borrowed")
            return A(1, (UNIT,))
        c.ip.shared_write(st, ("n", nid), "the borrow state")
        H.upd(st, nid, borrow=st.norm(b + 1))
        g = ("ref", p, nid, "r")
    else:
        free = b != "w" and st.decide("eq0", b)
        if not free:
            if it == "borrow_mut":
                raise Panic("already borrowed")
            return A(1, (UNIT,))
        c.ip.shared_write(st, ("n", nid), "the borrow state")
        H.upd(st, nid, borrow="w")
        g = ("ref", p, nid, "w")
    return A(0, (g,)) if it.startswith("try") else g


@rx(r"<std::cell::(Ref|RefMut) as std::ops::(Deref|DerefMut)>::(deref|deref_mut)")
def m_ref_deref(c):
    v = c.ip.load(c.st, c.args[0])
    return v[1]


@model("std::cell::Ref::clone")
def m_ref_clone(c):
    v = c.ip.load(c.st, c.args[0])
    r = H.rec(c.st, v[2])
    H.upd(c.st, v[2], borrow=c.st.norm(r["borrow"] + 1))
    return v


@model("std::cell::Ref::map", "std::cell::RefMut::map")
def m_ref_map(c):
    g, f = c.args
    ty = c.atys[1]
    fn = closure_fn(c, ty)

    def then(ip, st, v):
        return ("ref", v, g[2], g[3])
    return call_closure(c, ty, f, [g[1]], then)


def closure_fn(c, ty):
    return None


def call_closure(c, ty, f, args, then):
    """call a value of closure or function-item type"""
    prog = c.ip.prog
    if ty.k == "fndef":
        fn = prog.fns[ty.d["fn"]]
        m = c.ip.models.find(fn)
        if m is not None:
            class Ctx:
                pass
            from interp import CallCtx
            cc = CallCtx(c.ip, c.st, fn, args, [], c.dty, c.target, c.unw, c.dp)
            res = m(cc)
            return then(c.ip, c.st, res)
        return push_then(c, fn, args, then)
    if ty.k == "closure":
        fn = prog.fns[ty.d["fn"]]
        if fn.locals and fn.argc >= 1:
            t1 = prog.ty(fn.locals[1])
            if t1.k == "ref":
                o = ("o", c.st.fresh("clo"))
                c.st.put(o, f)
                return push_then(c, fn, [P(o)] + list(args), then)
        return push_then(c, fn, [f] + list(args), then)
    raise Inconclusive("call of %s" % ty.name)


@model("std::ptr::drop_in_place", "std::mem::ManuallyDrop::drop", "std::ptr::NonNull::drop_in_place", "std::ptr::mut_ptr::<impl *mut T>::drop_in_place")
def m_drop_in_place(c):
    to = c.atys[0]
    ty = c.ip.prog.ty(to.d["to"]) if to.k in ("ptr", "ref") else c.ip.prog.ty(c.fn.targs[0])
    if c.fn.item == "drop" or to.k == "adt":
        ty = c.ip.prog.ty(c.fn.targs[0])
    c.ip.store(c.st, c.dp, UNIT)
    c.ip.goto(c.st, c.target)
    c.ip.drop_at(c.st, c.args[0], ty, c.target, c.unw)
    return ("pushed",)


@rx(r"<std::vec::Vec as std::iter::FromIterator>::from_iter")
def m_from_iter(c):
    """(a..b).map(f).collect() and repeat_with(f).take(n).collect() of values that do not depend on the position"""
    ty, v, st = c.atys[0], c.args[0], c.st
    inner = [c.ip.prog.ty(x) for x in ty.d.get("args", ())] if ty.k == "adt" else []
    if ty.k == "adt" and ty.path == "std::iter::Map" and inner and inner[0].path == "std::ops::Range":
        rg, f = v.f
        lo, hi, fty, args = rg.f[0], rg.f[1], inner[1], [sym(st.fresh("pos"))]
        if st.decide("ge0", lo - hi):
            n = ZERO
        else:
            n = st.norm(hi - lo)
    elif ty.k == "adt" and ty.path == "std::iter::Take" and inner and inner[0].path == "std::iter::RepeatWith":
        f, n = v.f[0].f[0], st.norm(v.f[1])
        fty, args = c.ip.prog.ty(inner[0].d["args"][0]), []
    else:
        raise Inconclusive("collect from %s" % ty.name)

    def then(ip, s, x):
        if args and args[0].t[0][0] in all_atoms_of(x):
            raise Inconclusive("collect of values that depend on the position")
        q = ("vec", s.fresh("vec"))
        s.put(q, (("r", x, n),))
        return q
    return call_closure(c, fty, f, args, then)


@rx(r"std::intrinsics::integer_(max|min)")
def m_int_max(c):
    a, b = c.args
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        raise Inconclusive("maximum of %r and %r" % (a, b))
    return a if c.ip.truth(c.st, c.ip.cond(c.st, "ge0", a - b)) == c.fn.item.endswith("max") else b


@rx(r"std::boxed::Box::new_uninit")
def m_box_uninit(c):
    o = ("o", c.st.fresh("box"))
    c.st.put(o, UNINIT)
    return P(o)


@rx(r"std::boxed::box_assume_init_into_vec_unsafe", r"std::slice::<impl \[T\]>::into_vec")
def m_box_to_vec(c):
    """vec![a, b, ..]"""
    p = c.args[0]
    if not isinstance(p, P) or p.r[0] != "o":
        raise Inconclusive("vector from %r" % (p,))
    v = c.st.mem[p.r]
    if not isinstance(v, A):
        raise Inconclusive("vector from %r" % (v,))
    items = ()
    for x in v.f:
        items += (("e", x),)
        if is_tag(x, "rch"):
            items = merge_handles(c.st, items)
        elif "tup" in c.st.ghost:
            import tupbuild
            items = tupbuild.merge_numbers(c.st, items)
    q = ("vec", c.st.fresh("vec"))
    c.st.put(q, items)
    c.st.rm(p.r)
    return q


@rx(r"std::vec::from_elem")
def m_from_elem(c):
    if c.atys and c.atys[0].d["nd"]:
        raise Inconclusive("vector of copies of a droppable value")
    q = ("vec", c.st.fresh("vec"))
    c.st.put(q, (("r", c.args[0], c.st.norm(c.args[1])),))
    return q


@rx(r"std::vec::Vec::resize_with")
def m_resize_with(c):
    """growing a vector by values that do not depend on the position"""
    q, n, f = c.args[0], c.args[1], c.args[2]
    st = c.st
    v = c.ip.load(st, q)
    items = c.ip.models.vec(st, v)
    more = st.norm(n - c.ip.models.vlen(st, items))
    if not st.prove_ge0(more):
        raise Inconclusive("a vector that may shrink")

    def then(ip, s, x):
        s.put(v, tuple(s.mem[v]) + (("r", x, more),))
        return UNIT
    return call_closure(c, c.atys[2], f, [], then)


IOTA = ("iota",)


def all_atoms_of(v):
    from loops import all_atoms
    return all_atoms(v)


# ----------------------------------------------------------------- Box
@model("std::boxed::Box::new")
def m_box_new(c):
    v = c.args[0]
    st = c.st
    inner = c.ip.prog.ty(c.fn.targs[0]) if c.fn.targs else None
    if H.L.nodevec is not None and inner is not None and inner.id == H.L.nodevec.id:
        b = v.f[H.L.VF["buf"]]
        if not is_tag(b, "vec"):
            raise Inconclusive("node buffer made from %r" % (b,))
        items = st.mem[b]
        pid = st.fresh("v")
        ln = c.ip.models.vlen(st, items)
        for it in items:
            x = it[1]
            if it[0] not in ("e", "r") or not isinstance(x, A):
                raise Inconclusive("contents of a new node buffer")
        fs = list(v.f)
        fs[H.L.VF["buf"]] = ("pbuf", pid)
        st.rm(b)
        st.put(("v", pid), {"val": A(0, tuple(fs)), "rest": ZERO, "len": ln, "slots": (), "st": "live", "fresh": True,
                            "wk": ZERO, "init": items})
        if "bfs" in st.ghost:
            import rebuild
            rebuild.new_buffer(st, pid, items)
        elif "tup" in st.ghost:
            import tupbuild
            tupbuild.new_buffer(st, pid, items)
        return P(("v", pid))
    o = ("o", st.fresh("box"))
    st.put(o, v)
    return P(o)


@rx(r"std::boxed::Box::(into_raw|from_raw|leak|from_non_null|into_non_null|as_ptr|as_mut_ptr)")
def m_box_raw(c):
    return c.args[0]


@rx(r"<std::boxed::Box as std::ops::(Deref|DerefMut)>::(deref|deref_mut)", r"<std::boxed::Box as std::convert::AsRef>::as_ref")
def m_box_deref(c):
    return c.ip.load(c.st, c.args[0])


# ----------------------------------------------------------------- Vec / VecDeque
@rx(r"std::vec::Vec::(new|with_capacity)", r"std::collections::VecDeque::(new|with_capacity)",
    r"<std::(vec::Vec|collections::VecDeque) as std::default::Default>::default")
def m_vec_new(c):
    v = ("vec", c.st.fresh("vec"))
    c.st.put(v, ())
    return v


def vload(c):
    v = c.ip.load(c.st, c.args[0])
    return v


def pb_len(c, v):
    pl = c.st.mem.get(("v", v[1]))
    if pl is None or pl["st"] != "live":
        raise Violation("memory", "access to a released node buffer")
    return pl["len"]


@rx(r"std::vec::Vec::(push|pop|len|is_empty|clear|truncate|as_ptr|as_mut_ptr|set_len|as_slice|as_mut_slice|reserve|capacity|shrink_to_fit|reserve_exact)",
    r"std::collections::VecDeque::(push_back|push_front|pop_front|pop_back|len|is_empty|clear|front|front_mut|back|back_mut|reserve|get|get_mut)",
    r"<std::vec::Vec as std::ops::(Deref|DerefMut)>::(deref|deref_mut)", r"<std::vec::Vec as std::convert::AsRef>::as_ref",
    r"<std::vec::Vec as std::ops::(Index|IndexMut)>::(index|index_mut)", r"<std::collections::VecDeque as std::ops::(Index|IndexMut)>::(index|index_mut)")
def m_vec(c):
    it = c.fn.item
    st, ip = c.st, c.ip
    v = vload(c)
    if is_tag(v, "pbuf"):
        if it in ("deref", "deref_mut", "as_ref", "as_ptr", "as_mut_ptr", "as_slice", "as_mut_slice"):
            n = pb_len(c, v)
            return P(("pb", v[1]), (), None if it.endswith("ptr") else n)
        if it in ("len", "capacity"):
            return pb_len(c, v)
        if it == "is_empty":
            return ip.cond(st, "eq0", pb_len(c, v))
        if it == "set_len":
            H.set_pile(st, v[1], len_now=c.args[1])
            return UNIT
        if it in ("index", "index_mut"):
            return slice_index(c, P(("pb", v[1]), (), pb_len(c, v)), c.args[1], checked=True)
        raise Inconclusive("%s of a node buffer" % it)
    items = ip.models.vec(st, v)
    n = ip.models.vlen(st, items)
    if items and it not in ("push", "push_back", "push_front", "len") and (
            items[0][0] == "rest" and it not in ("pop", "pop_back", "back", "back_mut") or
            items[-1][0] == "rest" and it in ("pop", "pop_back", "back", "back_mut")):
        raise Panic("rest")
    if it in ("push", "push_back"):
        items += (("e", c.args[1]),)
        if is_tag(c.args[1], "rch"):
            items = merge_handles(st, items)
        elif "tup" in st.ghost and it != "push_front":
            import tupbuild
            items = tupbuild.merge_numbers(st, items)
        st.put(v, items)
        return UNIT
    if it == "push_front":
        st.put(v, (("e", c.args[1]),) + items)
        return UNIT
    if it == "len":
        return n
    if it == "is_empty":
        return ip.cond(st, "eq0", n)
    if it in ("reserve", "shrink_to_fit", "reserve_exact"):
        return UNIT
    if it in ("pop", "pop_back"):
        items = expand_vec_end(c, v, items)
        if not items:
            return NONE
        st.put(v, items[:-1])
        return SOME(items[-1][1])
    if it == "pop_front":
        if not items:
            return NONE
        if items[0][0] != "e":
            raise Inconclusive("front of an unknown part of a queue")
        st.put(v, items[1:])
        return SOME(items[0][1])
    if it == "clear" or it == "truncate" or it == "set_len":
        et = c.ip.prog.ty(c.fn.targs[0])
        if it == "set_len" or it == "truncate":
            k = st.norm(c.args[1])
            if k != ZERO or (et.d["nd"] and it == "truncate"):
                raise Inconclusive("%s of a vector" % it)
        elif et.d["nd"]:
            raise Inconclusive("clear of a vector of droppable elements")
        st.put(v, ())
        return UNIT
    if it in ("deref", "deref_mut", "as_ref", "as_slice", "as_mut_slice"):
        return P(v, (), n)
    if it in ("as_ptr", "as_mut_ptr"):
        return P(v)
    if it in ("front", "front_mut"):
        if not items:
            return NONE
        return SOME(P(v, (("i", ZERO),)))
    if it in ("back", "back_mut"):
        items = expand_vec_end(c, v, items)
        if not items:
            return NONE
        return SOME(P(v, (("i", st.norm(n - 1)),)))
    if it in ("index", "index_mut"):
        return slice_index(c, P(v, (), n), c.args[1], checked=True)
    if it in ("get", "get_mut"):
        if not ip.truth(st, ip.cond(st, "ge0", n - c.args[1] - 1)):
            return NONE
        return SOME(P(v, (("i", st.norm(c.args[1])),)))
    raise Inconclusive("vector operation %s" % it)


def merge_handles(st, items):
    """children of one node queued in order are one run"""
    iota = atom(("iota",))
    x = items[-1][1]
    last = items[-2] if len(items) > 1 else None
    if last is not None and last[0] == "r" and is_tag(last[1], "rch") and last[1][1] == x[1] and st.norm(last[1][2] - iota + last[2] - x[2]) == ZERO:
        return items[:-2] + (("r", last[1], st.norm(last[2] + 1)),)
    return items[:-1] + (("r", ("rch", x[1], st.norm(x[2] + iota)), ONE),)


def expand_vec_end(c, v, items):
    """make sure that the last element is known"""
    while items and items[-1][0] == "lz":
        g = c.st.ghost["lazyvec"]
        items = g(c.ip, c.st, v, items)
        c.st.put(v, items)
    if items and items[-1][0] == "r":
        it = items[-1]
        if c.st.decide("eq0", it[2]):
            items = items[:-1]
        else:
            items = items[:-1] + (("r", it[1], c.st.norm(it[2] - 1)), ("e", it[1]))
        c.st.put(v, items)
    return items


def slice_index(c, p, i, checked):
    ip, st = c.ip, c.st
    if not isinstance(i, Lin):
        raise Inconclusive("index by %r" % (i,))
    if checked:
        if not is_slot(st, p, i) and not ip.truth(st, ip.cond(st, "ge0", p.m - i - 1)):
            raise Panic("index out of bounds")
    else:
        n = p.m
        if r_is_pb(p):
            return ip.models.pile_slot(ip, st, p.r[1], i)
        if not st.prove_ge0(n - i - 1):
            raise Violation("bounds", "unchecked index %r of a slice of length %r" % (i, n))
    if r_is_pb(p):
        return ip.models.pile_slot(ip, st, p.r[1], i)
    return P(p.r, (("i", st.norm(i)),))


def is_slot(st, p, i):
    """is i the number of a node of this buffer that is known to exist?"""
    if p.r[0] != "pb" or ("v", p.r[1]) not in st.mem:
        return False
    return any(st.norm(j - i) == ZERO for j, _ in st.mem[("v", p.r[1])]["slots"])


def r_is_pb(p):
    return p.r[0] == "pb"


@rx(r"std::slice::<impl \[T\]>::(len|is_empty|first|first_mut|last|last_mut|get|get_mut|get_unchecked|get_unchecked_mut|as_ptr|as_mut_ptr)",
    r"<\[T\] as std::ops::(Index|IndexMut)>::(index|index_mut)", r"<usize as std::slice::SliceIndex>::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut)",
    r"std::slice::index::<impl std::ops::(Index|IndexMut) for \[T\]>::(index|index_mut)")
def m_slice(c):
    it = c.fn.item
    ip, st = c.ip, c.st
    if c.fn.path.startswith("<usize"):
        i, p = c.args
    else:
        p = c.args[0]
        i = c.args[1] if len(c.args) > 1 else None
    if p.r[0] not in ("vec", "pb"):
        if it == "len":
            return p.m
        raise Inconclusive("slice %r" % (p,))
    n = p.m
    if it == "len":
        return n
    if it == "is_empty":
        return ip.cond(st, "eq0", n)
    if it in ("as_ptr", "as_mut_ptr"):
        return P(p.r, p.p)
    if it in ("first", "first_mut", "last", "last_mut"):
        if p.r[0] == "vec" and it.startswith("last"):
            expand_vec_end(c, p.r, st.mem[p.r])
        if ip.truth(st, ip.cond(st, "eq0", n)):
            return NONE
        k = ZERO if it.startswith("first") else st.norm(n - 1)
        return SOME(slice_index(c, p, k, False))
    if it in ("get", "get_mut"):
        if not is_slot(st, p, i) and not ip.truth(st, ip.cond(st, "ge0", n - i - 1)):
            return NONE
        ensure_index(c, p, i)
        return SOME(slice_index(c, p, i, False))
    if it.startswith("get_unchecked"):
        return slice_index(c, p, i, False)
    ensure_index(c, p, i)
    return slice_index(c, p, i, True)


@rx(r"std::slice::(iter|iter_mut)", r"std::slice::(Iter|IterMut)::new")
def m_slice_iter(c):
    """an iterator over a slice: the slice and the range of indices that is left"""
    p = c.args[0]
    if p.r[0] not in ("vec", "pb"):
        raise Inconclusive("iterating the slice %r" % (p,))
    return A(0, (P(p.r, (), p.m), A(0, (ZERO, p.m)), UNIT))


@rx(r"<std::slice::(Iter|IterMut) as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::(next|nth|last|len|size_hint|count|next_back|nth_back)",)
def m_slice_step(c):
    ip, st, it = c.ip, c.st, c.fn.item
    own = it in ("last", "count")
    v = c.args[0] if own else ip.load(st, c.args[0])
    if not (isinstance(v, A) and isinstance(v.f[0], P) and isinstance(v.f[1], A)):
        raise Inconclusive("iterator of a slice %r" % (v,))
    p = v.f[0]
    lo, hi = v.f[1].f
    if it in ("len", "count"):
        return hi - lo
    if it == "size_hint":
        return A(0, (hi - lo, SOME(hi - lo)))
    k = c.args[1] if it.startswith("nth") else ZERO
    back = it in ("next_back", "nth_back", "last")

    def keep(lo, hi):
        if not own:
            ip.store(st, c.args[0], A(0, (p, A(0, (st.norm(lo), st.norm(hi))), UNIT)))
    if not ip.truth(st, ip.cond(st, "ge0", st.norm(hi - lo - k - 1))):
        keep(*((lo, lo) if back else (hi, hi)))
        return NONE
    i = st.norm(hi - 1 - k if back else lo + k)
    keep(*((lo, i) if back else (i + 1, hi)))
    ensure_index(c, p, i)
    return SOME(slice_index(c, p, i, False))


def ensure_index(c, p, i):
    """materialise the element at distance k from the end of a lazily known vector"""
    if p.r[0] != "vec":
        return
    st = c.st
    items = st.mem[p.r]
    if not items or items[0][0] == "e":
        return
    d = st.norm(p.m - i)
    if not d.is_const():
        return
    known = len([x for x in items if x[0] == "e"])
    if known >= d.c or items[0][0] != "lz":
        return
    # expand below the known end
    tail = items[1:]
    g = st.ghost["lazyvec"]
    head = g(c.ip, st, p.r, items[:1])
    st.put(p.r, head + tail)


# ----------------------------------------------------------------- the opaque element
def elem(c, p):
    v = c.ip.load(c.st, p)
    if v is UNINIT:
        raise Violation("memory", "use of a moved-out datum")
    c.ip.models.guard(c.ip, c.st, p)
    return H.norm_val(c.st, v)


def _guard(self, ip, st, p):
    """in the RcNode context a datum is only touched under a dynamic borrow of its node"""
    if not st.ghost.get("guarded"):
        return
    p = ip.resolve(st, p)
    if p.r[0] == "n":
        b = H.rec(st, p.r[1])["borrow"]
        if b == ZERO:
            raise Violation("borrow", "a datum is used without a dynamic borrow of its node")


Models.guard = _guard


@rx(r"<.*opq::Elem as std::clone::Clone>::clone")
def m_elem_clone(c):
    v = elem(c, c.args[0])
    c.st.event("clone", v)
    return ("cl", v)


def opaque_choice(c, key, n):
    """an unknown but fixed result 0..n-1"""
    st = c.st
    if getattr(c, "keys", None) is not None:
        # one of several choices of one call: all are kept until the call is over
        key = ("multi", len(c.keys), key)
        c.keys.append(key)
    ch = st.ghost.get(key)
    if ch is None:
        def setc(i):
            def go(s):
                s.ghost = dict(s.ghost)
                s.ghost[key] = i
            return go
        raise Fork([setc(i) for i in range(n)], "%s" % (key,))
    if not is_tag(key, "multi"):
        st.ghost = dict(st.ghost)
        del st.ghost[key]
    return ch


class Ctx0:
    keys = None
    tail = None

    def __init__(self, ip, st):
        self.ip = ip
        self.st = st


@rx(r"<.*opq::Elem as std::cmp::PartialEq>::(eq|ne)")
def m_elem_eq(c):
    a, b = elem(c, c.args[0]), elem(c, c.args[1])
    st = c.st
    r = opaque_choice(c, "elem_eq", 2)
    # r: are they equal
    st.event("cmp", "eq", a, b, r)
    return ONE if r == (1 if c.fn.item == "eq" else 0) else ZERO


@rx(r"<.*opq::Elem as std::cmp::PartialOrd>::partial_cmp")
def m_elem_pcmp(c):
    a, b = elem(c, c.args[0]), elem(c, c.args[1])
    r = opaque_choice(c, "elem_pc", 4)
    c.st.event("cmp", "partial_cmp", a, b, r)
    return NONE if r == 3 else SOME(A(r, ()))


@rx(r"<.*opq::Elem as std::cmp::Ord>::cmp")
def m_elem_cmp(c):
    a, b = elem(c, c.args[0]), elem(c, c.args[1])
    r = opaque_choice(c, "elem_c", 3)
    c.st.event("cmp", "cmp", a, b, r)
    return A(r, ())


@rx(r"<.*opq::Elem as std::hash::Hash>::hash")
def m_elem_hash(c):
    a = elem(c, c.args[0])
    c.st.event("hash", a)
    return UNIT


@rx(r"<.*opq::QH as std::hash::Hasher>::write.*")
def m_feed(c):
    v = c.args[1]
    c.st.event("feed", c.fn.item, c.st.norm(v) if isinstance(v, Lin) else ("other",))
    return UNIT


@rx(r"<.*opq::Elem as std::fmt::(Display|Debug)>::fmt")
def m_elem_fmt(c):
    a = elem(c, c.args[0])
    e = opaque_choice(c, "elem_fmt", 2)
    c.st.event("dbg" if "std::fmt::Debug" in c.fn.full else "fmt", a, e)
    return A(1, (UNIT,)) if e else A(0, (UNIT,))


@rx(r"<\*(const|mut) .* as std::fmt::(Debug|Pointer)>::fmt")
def m_ptr_fmt(c):
    e = opaque_choice(c, "ptr_fmt", 2)
    c.st.event("ptr", c.ip.load(c.st, c.args[0]), e)
    return A(1, (UNIT,)) if e else A(0, (UNIT,))


# ----------------------------------------------------------------- formatting
@rx(r"(core|std)::fmt::rt::Argument::new_(display|debug|pointer)")
def m_fmtarg(c):
    return ("fmtarg", c.args[0], c.fn.targs[0], c.fn.item[4:])


@rx(r"std::fmt::Arguments::new")
def m_fmtargs(c):
    t = c.args[0]
    v = c.ip.load(c.st, c.args[1])
    if isinstance(t, P) and t.r[0] == "str":
        b = bytes.fromhex(t.r[1])
    else:
        b = bytes(int(x.c) for x in c.ip.load(c.st, t).f)
    parts = []
    i = k = 0
    items = v.f if isinstance(v, A) else tuple(v)
    while b[i]:
        n = b[i]
        i += 1
        if n < 0x80:
            parts.append(("str", b[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = b[i] + 256 * b[i + 1]
            parts.append(("str", b[i + 2:i + 2 + ln].decode()))
            i += 2 + ln
        else:
            opts = []
            for bit, size in ((1, 4), (2, 2), (4, 2)):
                if n & bit:
                    opts.append((bit, b[i:i + size].hex()))
                    i += size
            if n & 8:
                k = b[i] + 256 * b[i + 1]
                i += 2
            parts.append(("arg", items[k], tuple(opts)))
            k += 1
    return ("fmtargs", tuple(parts))


@rx(r"std::fmt::Arguments::from_str(_nonconst)?")
def m_fmtstr(c):
    t = c.args[0]
    if not (isinstance(t, P) and t.r[0] == "str"):
        raise Inconclusive("format string is not a constant")
    return ("fmtargs", (("str", bytes.fromhex(t.r[1]).decode()),))


def put_str(c, text):
    e = opaque_choice(c, "str_fmt", 2)
    c.st.event("str", text, e)
    return e


@rx(r"std::fmt::Formatter::(write_fmt|write_str|write_char)", r"<std::fmt::Formatter.* as std::fmt::Write>::(write_fmt|write_str|write_char)")
def m_fmtwrite(c):
    it = c.fn.item
    st = c.st
    v = c.args[1]
    if it == "write_char":
        if not (isinstance(v, Lin) and v.is_const()):
            raise Inconclusive("write_char of an unknown character")
        return A(put_str(c, chr(int(v.c))), (UNIT,))
    if it == "write_str":
        if not (isinstance(v, P) and v.r[0] == "str"):
            raise Inconclusive("write_str of an unknown string")
        return A(put_str(c, bytes.fromhex(v.r[1]).decode()), (UNIT,))
    if not is_tag(v, "fmtargs"):
        raise Inconclusive("unknown format arguments")
    # the pieces are written in order; every one of them may fail
    m = Ctx0(c.ip, st)
    m.keys = []
    e = 0
    if len(v[1]) == 1 and v[1][0][0] == "arg":
        m.tail = c
    for part in v[1]:
        e = put_str(m, part[1]) if part[0] == "str" else put_arg(m, part[1], part[2])
        if is_tag(e, "pushed"):
            return e
        if e:
            break
    st.ghost = {k: x for k, x in st.ghost.items() if not is_tag(k, "multi")}
    return A(1 if e else 0, (UNIT,))


def put_arg(c, arg, opts):
    import contracts
    st, ip = c.st, c.ip
    if opts or not is_tag(arg, "fmtarg"):
        raise Violation("grammar", "a datum or node is printed with its own formatting options") if opts else Inconclusive("format argument")
    p, ty, how = arg[1], ip.prog.ty(arg[2]), arg[3]
    if how == "pointer" or ty.k == "ptr":
        e = opaque_choice(c, "ptr_fmt", 2)
        st.event("ptr", ip.load(st, p), e)
        return e
    while ty.k == "ref":
        p, ty = ip.load(st, p), ip.prog.ty(ty.d["to"])
    while ty.d.get("path") in ("std::cell::Ref", "std::cell::RefMut"):
        v = ip.load(st, p)
        p, ty = v[1], ip.prog.ty(ty.d["args"][-1])
    nm_ = ty.name
    if nm_.endswith("opq::Elem"):
        a = elem(c, p)
        e = opaque_choice(c, "elem_fmt", 2)
        st.event("dbg" if how == "debug" else "fmt", a, e)
        return e
    for f in ip.prog.fns:
        if f.full == "<%s as std::fmt::%s>::fmt" % (nm_, how.capitalize()):
            for pred, go in ip.summaries:
                if pred(ip, st, f):
                    r = go(ip, st, f, [p, None], None, None, None, c)
                    if r is not NotImplemented:
                        return r.v
            if c.tail is not None:
                # the whole output is this one argument: a tail call
                t = c.tail
                ip.call_fn(st, f, [p, t.args[0]], t.dp, t.target, t.unw)
                return ("pushed",)
    raise Inconclusive("format argument of type %s" % nm_)


@rx(r".*opq::(look|poke)$")
def m_use(c):
    """the client uses a datum"""
    c.st.event(c.fn.item, elem(c, c.args[0]))
    if c.fn.item == "poke" and c.st.ghost.get("guarded"):
        p = c.ip.resolve(c.st, c.args[0])
        if p.r[0] == "n" and H.rec(c.st, p.r[1])["borrow"] != "w":
            raise Violation("borrow", "a datum is handed out for writing without an exclusive borrow of its node")
    return UNIT


# ----------------------------------------------------------------- opaque lists, streams of visits
@rx(r".*opq::conv$")
def m_conv(c):
    v = H.norm_val(c.st, c.args[0])
    c.st.event("conv", v)
    return ("cl", v)


@rx(r"<.*opq::QI as std::iter::(Iterator|ExactSizeIterator)>::(next|len|size_hint)", r"<.*opq::QN as trees::bfs::Split>::split")
def m_queue(c):
    """("qi", S, i): the items i.. of the list S; ("qn", S, i): an item"""
    st, ip = c.st, c.ip
    v = c.args[0] if c.fn.item == "split" else ip.load(st, c.args[0])
    if not isinstance(v, tuple) or v[0] not in ("qi", "qn"):
        raise Inconclusive("opaque list %r" % (v,))
    S, i = st.norm_seq(v[1]), st.norm(v[2])
    if c.fn.item == "split":
        return A(0, (("e", S, i), ("qi", ("k", S, i), ZERO), st.norm(st.cnt(S, i) - 1)))
    n = qlen(st, S)
    if c.fn.item == "len":
        return st.norm(n - i)
    if c.fn.item == "size_hint":
        return A(0, (st.norm(n - i), SOME(st.norm(n - i))))
    if st.decide("eq0", n - i):
        return NONE
    ip.store(st, c.args[0], ("qi", S, st.norm(i + 1)))
    return SOME(("qn", S, i))


def qlen(st, S):
    return st.deg(S[1], S[2]) if is_tag(S, "k") else st.norm(atom(("s", "qlen_" + S)))


@rx(r"<.*opq::QV as std::iter::Iterator>::next")
def m_stream(c):
    """("qv", S, i): the visits i.. of the stream S"""
    st, ip = c.st, c.ip
    if "bfs" in st.ghost:
        import rebuild
        return rebuild.stream_next(c)
    v = ip.load(st, c.args[0])
    S, i = v[1], st.norm(v[2])
    if st.decide("eq0", qlen(st, S) - i):
        return NONE
    ip.store(st, c.args[0], ("qv", S, st.norm(i + 1)))
    vt = [t for t in ip.prog.tys if t.k == "adt" and t.path == "trees::bfs::Visit" and "opq::Elem" in t.name and "&" not in t.name][0]
    return SOME(H.L.mk_struct(vt, data=("e", S, i), size=H.L.mk_size(st.deg(S, i), st.norm(st.cnt(S, i) - 1))))


@rx(r"<.*opq::QT as std::iter::Iterator>::next")
def m_trees(c):
    """("qt", S, i): the trees i.. of the caller's iterator S, which may look at the receiver through other handles"""
    st, ip = c.st, c.ip
    v = ip.load(st, c.args[0])
    if not is_tag(v, "qt"):
        raise Inconclusive("trees from %r" % (v,))
    for k, r in st.mem.items():
        if k[0] == "n" and r["st"] == "live" and r["borrow"] != r.get("borrow0", ZERO):
            raise Violation("borrow", "a dynamic borrow of %s is held while the caller's iterator runs" % H.nm(st, k[1]))
    S, i = v[1], st.norm(v[2])
    if st.decide("eq0", qlen(st, S) - i):
        return NONE
    ip.store(st, c.args[0], ("qt", S, st.norm(i + 1)))
    nid = H.node_from_seg(st, S, i, NONE, NONE, NONE)
    H.upd(st, nid, listed=False, hidden=False)
    return SOME(H.L.mk_struct(H.L.tree, root=H.nid_ptr(nid)))


def vecs_in(v, out):
    if is_tag(v, "vec"):
        out.append(v)
    elif isinstance(v, A):
        for x in v.f:
            vecs_in(x, out)


@rx(r".*opq::(unknown|only)$")
def m_splitted(c):
    st, ip = c.st, c.ip
    v = ip.load(st, c.args[0]) if c.fn.item == "unknown" else c.args[0]
    out = []
    vecs_in(v, out)
    if len(out) != 1:
        raise Inconclusive("the breadth-first iterator does not hold one queue")
    q = out[0]
    if c.fn.item == "unknown":
        n = atom(("s", "qlen_rest"))
        st.assume_ge0(n - 1)
        st.put(q, st.mem[q] + (("rest", None, n),))
        return UNIT
    its = st.mem[q]
    if len(its) != 1 or its[0][0] != "e":
        raise Violation("queue", "the queue starts with %d lists" % len(its))
    st.put(q, ())
    return its[0][1]


@rx(r".*opq::(see|see_rc|note|note2|flag|choose)$")
def m_client(c):
    """what the client learns, and its decisions"""
    st, ip, it = c.st, c.ip, c.fn.item
    if it == "choose":
        return const(opaque_choice(c, "choice", 2))
    v = c.args[0]
    if it == "note":
        st.event("note", st.norm(v))
    elif it == "note2":
        st.event("note", st.norm(v), st.norm(c.args[1]))
    elif it == "flag":
        st.event("flag", ip.truth(st, v))
    elif it == "see":
        see_node(ip, st, v)
    else:
        nid = H.L.handle_node(ip, st, ip.load(st, v))
        see_node(ip, st, P(("n", nid)), handle=True)
    return UNIT


def see_node(ip, st, p, handle=False):
    r = st.root(p.r)
    if r[0] in ("f", "l"):
        sg = st.mem.get(("s", r[1]))
        if sg is None:
            raise Violation("memory", "a reference to a released node is handed out")
        st.event("see", st.norm_seq(sg["S"]), st.norm(sg["lo"] if r[0] == "f" else sg["hi"] - 1))
        return
    p = ip.resolve(st, p)
    if p.r[0] != "n":
        raise Violation("memory", "a dangling reference is handed out")
    r = ip.node_live(st, p.r[1], p)
    if r["st"] != "live":
        raise Violation("memory", "a reference to the released node %s is handed out" % H.nm(st, p.r[1]))
    if r["hidden"] is None:
        H.force_data(st, p.r[1])
        r = H.rec(st, p.r[1])
    if r["hidden"]:
        raise Violation("hidden", "the hidden root of a forest is handed out")
    st.event("see", st.norm_seq(r["src"][0]), st.norm(r["src"][1]))
