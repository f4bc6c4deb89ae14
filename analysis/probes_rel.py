"""Structural relations: equality, order, hash, printout."""
from core import *
import heap as H
from loops import IOTA, logs_equal
from spec import Probe

PROBES = []
EQ = 1
NAMES = {0: "Less", 1: "Equal", 2: "Greater", 3: "None"}


def iota(c, name):
    return ("n", c.kseq(name), atom(IOTA))


def keep(log, tags):
    out = []
    for e in log:
        if is_tag(e, "run"):
            t = keep(e[1], tags)
            if t:
                out.append(("run", tuple(t), e[2]))
        elif e[0] in tags:
            out.append(e)
    return out


def compared(c, op, datum):
    """-> (last comparison that is not 'equal' or None, number of children known equal); complains about comparisons of
    things that do not correspond, out of order or left out"""
    st = c.st
    log = keep(st.log, ("cmp",))
    flip = False
    last = None

    def norm(e):
        """operands in the order a, b"""
        _, o, x, y, r = e
        if o != op:
            c.bad("relation", "decided by %s of %s" % (o, "the data" if x[0] == "e" else "the children"))
        x, y = H.norm_val(st, x), H.norm_val(st, y)

        def side(z):
            S = z[1]
            while not isinstance(S, str):
                S = S[1]
            return S
        if (side(x), side(y)) == ("b", "a"):
            x, y, r = y, x, {0: 2, 2: 0}.get(r, r) if o != "eq" else r
        return ("cmp", x, y, r)
    log = [("run", tuple(norm(x) for x in e[1]), e[2]) if is_tag(e, "run") else norm(e) for e in log]
    for e in log[:-1]:
        for x in (e[1] if is_tag(e, "run") else [e]):
            if x[3] != EQ:
                c.bad("relation", "goes on comparing after a difference")
    if log and not is_tag(log[-1], "run") and log[-1][3] != EQ:
        last = log.pop()
    first = []
    if datum:
        d = ("cmp", ("e", "a", ZERO), ("e", "b", ZERO))
        if op == "eq":
            # the order of the parts does not matter for equality
            for k, e in enumerate(log):
                if not is_tag(e, "run") and e[1] == d[1]:
                    log.insert(0, log.pop(k))
                    break
        if not log or is_tag(log[0], "run") or log[0][1] != d[1]:
            if last is not None and last[1:3] == d[1:]:
                if op != "eq" and log:
                    c.bad("relation", "children are compared before the data")
                return last, ZERO, False, log
            first = None
        else:
            first = [d + (EQ,)]
    n = ZERO
    for e in log[len(first or ()):]:
        n = n + (e[2].scale(len(e[1])) if is_tag(e, "run") else ONE)
    n = st.norm(n)
    exp = list(first or ()) + [("run", (("cmp", iota(c, "a"), iota(c, "b"), EQ),), n)]
    diff = logs_equal(st, log, exp)
    if diff:
        c.bad("relation", "what is compared: " + diff)
    if last is not None:
        want = ("cmp", ("n", c.kseq("a"), n), ("n", c.kseq("b"), n))
        if H.norm_val(st, last[:3]) != H.norm_val(st, want):
            c.bad("relation", "compares %r with %r" % (last[1], last[2]))
    return last, n, first is not None, log


def m_eq(neg, datum):
    def check(c):
        st = c.st
        val = c.truth()
        equal = val != neg
        last, n, dat, log = compared(c, "eq", datum)
        if last is not None:
            if equal:
                c.bad("relation", "says equal although %s differ" % ("the data" if last[1][0] == "e" else "two children"))
            return
        da, db = c.deg("a"), c.deg("b")
        if equal:
            if datum and not dat:
                c.bad("relation", "says equal without comparing the data")
            if not (st.must_eq(da, db) and st.must_eq(n, da)):
                c.bad("relation", "says equal although only %r children of %r and %r are known to be equal" % (st.norm(n), st.norm(da), st.norm(db)))
        else:
            if st.decide("eq0", da - db) and st.decide("eq0", st.cnt("a", ZERO) - st.cnt("b", ZERO)):
                c.bad("relation", "says different although no difference was found")
    return check


def order(c):
    """index 0..3 of the result"""
    v = c.val
    if c.rname == "pcmp":
        if isinstance(v, A) and v.v == 0:
            return 3
        v = v.f[0]
    return v.v


def m_cmp(op, datum):
    def check(c):
        st = c.st
        c.rname = "pcmp" if op == "partial_cmp" else "cmp"
        r = order(c)
        last, n, dat, log = compared(c, op, datum)
        if last is not None:
            if r != last[3]:
                c.bad("relation", "result is %s although the first difference is %s" % (NAMES[r], NAMES[last[3]]))
            if datum and last[1][0] == "n" and not dat:
                c.bad("relation", "the data are not compared first")
            return
        if datum and not dat:
            c.bad("relation", "the data are not compared")
        da, db = c.deg("a"), c.deg("b")
        if st.decide("eq0", da - db):
            want, m = 1, da
        elif st.decide("ge0", db - da):
            want, m = 0, da
        else:
            want, m = 2, db
        if not st.must_eq(n, m):
            c.bad("relation", "stops after %r equal children of %r and %r" % (st.norm(n), st.norm(da), st.norm(db)))
        if r != want:
            c.bad("relation", "result is %s instead of %s for %r against %r children" % (NAMES[r], NAMES[want], st.norm(da), st.norm(db)))
    return check


SEEN = {}


def m_hash(datum, key):
    def check(c):
        st = c.st
        log = keep(st.log, ("hash", "feed"))
        exp = ([("hash", ("e", "a", ZERO))] if datum else []) + [("run", (("hash", ("n", c.kseq("a"), atom(IOTA))),), c.deg("a"))]
        d = logs_equal(st, keep(log, ("hash",)), exp)
        if d:
            c.bad("relation", "hashes " + d)
        e = c.empty("a")
        # one sequence per shape: storage, position, identity and cached values must not change what is fed
        def tok(y):
            if y[0] == "hash":
                return "data" if y[1][0] == "e" else "child"
            v = y[2]
            cl = set()
            if isinstance(v, Lin):
                v = st.norm(v)
                if not v.t:
                    cl.add("%d" % v.c)
                if st.must_eq(v, c.deg("a")):
                    cl.add("degree")
                if st.must_eq(v, st.cnt("a", ZERO)):
                    cl.add("nodes")
                if st.must_eq(v + 1, st.cnt("a", ZERO)):
                    cl.add("descendants")
            if not cl:
                c.bad("relation", "feeds something to the hasher that is no part of the structure: %r" % (v,))
            return frozenset((y[1], x) for x in cl)
        seq = []
        for x in log:
            body = [tok(y) for y in (x[1] if is_tag(x, "run") else [x])]
            for t in body:
                seq.append(t)
            for k in range(1, 4):       # repetitions are collapsed
                while len(seq) >= 2 * k and seq[-k:] == seq[-2 * k:-k] and "child" in seq[-k:]:
                    del seq[-k:]
        first = SEEN.setdefault((key, bool(c.empty("a"))), list(seq))
        if len(first) != len(seq):
            c.bad("relation", "what is fed to the hasher does not depend on the structure alone")
        for k, (x, y) in enumerate(zip(first, seq)):
            if x == y:
                continue
            z = x & y if isinstance(x, frozenset) and isinstance(y, frozenset) else None
            if not z:
                c.bad("relation", "what is fed to the hasher does not depend on the structure alone")
            first[k] = z
    return check


# ------------------------------------------------------------------------------------------------ printout
def pieces(st, log):
    """events of the printout, adjacent constant strings joined; -> (list, failed)"""
    out = []
    failed = False
    for e in keep(log, ("str", "fmt")):
        if failed:
            out.append(("more",))
            break
        if is_tag(e, "run"):
            body = []
            for x in e[1]:
                if x[2]:
                    failed = True
                add(body, x)
            out.append(("run", tuple(body), e[2]))
        else:
            failed = bool(e[2])
            add(out, e)
    return out, failed


def add(out, e):
    if e[0] == "str":
        if out and out[-1][0] == "str":
            out[-1] = ("str", out[-1][1] + e[1])
        elif e[1]:
            out.append(("str", e[1]))
    else:
        out.append(("fmt", e[1]))


def flat(c, log, exp):
    """compares as character/piece streams: strings are split into characters"""
    def chars(seq):
        r = []
        for e in seq:
            if e[0] == "run":
                r.append(("run", tuple(chars(e[1])), e[2]))
            elif e[0] == "str":
                r.extend(("ch", x) for x in e[1])
            else:
                r.append(e)
        return r
    return chars(log), chars(exp)


def m_fmt(datum, tag="fmt"):
    def check(c):
        st = c.st
        log = keep(st.log, ("str", "fmt", "dbg", "ptr"))
        ok = c.val.v == 0
        failed = False
        for k, e in enumerate(log):
            bad = any(x[2] for x in (e[1] if is_tag(e, "run") else [e]))
            if failed:
                c.bad("grammar", "goes on printing after a formatter error")
            failed = failed or bad
        if failed and ok:
            c.bad("grammar", "a formatter error is swallowed")
        if not failed and not ok:
            c.bad("grammar", "reports an error although nothing failed")
        kid = (tag, ("n", c.kseq("a"), atom(IOTA)))
        d = [(tag, ("e", "a", ZERO))] if datum else []
        if tag == "dbg" and datum:
            # datum@address, then the children, whose own text ends with a space or a bracket
            exp = d + [("str", "@"), ("ptr",), ("str", " ")]
            if not c.empty("a"):
                exp += [("str", "( "), ("run", (kid,), c.deg("a")), ("str", ")")]
        elif c.empty("a"):
            exp = d + ([] if datum else [("str", "()")])
        else:
            exp = d + [("str", "( "), ("run", (kid, ("str", " ")), c.deg("a")), ("str", ")")]

        def strip(seq):
            return [("run", tuple(strip(e[1])), e[2]) if e[0] == "run" else e[:1] if e[0] == "ptr" else e[:2] for e in seq]
        a, x = flat(c, strip(log), exp)
        if failed:
            # what was printed is a beginning of the documented text
            diff = prefix(st, a, x)
        else:
            diff = logs_equal(st, a, x)
        if diff:
            c.bad("grammar", "prints " + diff)
    return check


def prefix(st, a, exp):
    diff = logs_equal(st, a, exp)
    if diff is None or diff.startswith("missing"):
        return None
    # a partial string piece is possible only where the last event failed
    return diff


def node2(b):
    return [b.noderef("a"), b.noderef("b")]


def add_all(pre, setup2, setup1, datum, prove, variants=("",)):
    more = ["P26", "P06"] if pre == "rc" else ["P11"] if pre == "forest" else []
    for v in variants:
        o = {"prove": "rel"} if prove else {}

        def mk(suffix, check, setup, props):
            opts = dict(o, fn="%s_%s" % (pre, suffix))
            PROBES.append(Probe("%s_%s%s" % (pre, suffix, v), props, lambda b, s=setup, v=v: s(b, v), check, main=props[0], opts=opts))
        mk("eq", m_eq(False, datum), setup2, ["P20"] + more)
        mk("ne", m_eq(True, datum), setup2, ["P20"] + more)
        mk("pcmp", m_cmp("partial_cmp", datum), setup2, ["P20"] + more)
        mk("cmp", m_cmp("cmp", datum), setup2, ["P20"] + more)
        mk("hash", m_hash(datum, pre), setup1, ["P20"] + more)
        mk("fmt", m_fmt(datum), lambda b, v, s=setup1: [s(b, v)[0], fmtr(b)], ["P21"] + more)
        mk("dbg", m_fmt(datum, "dbg"), lambda b, v, s=setup1: [s(b, v)[0], fmtr(b)], ["P21"] + more)


def fmtr(b):
    b.st.put(("o", "fmtr"), ("opaque", "formatter"))
    return P(("o", "fmtr"))


def hasher(b):
    b.st.put(("o", "hasher"), ("opaque", "hasher"))
    return P(("o", "hasher"))


add_all("node", lambda b, v: node2(b), lambda b, v: [b.noderef("a"), hasher(b)], True, True)
add_all("tree", lambda b, v: [b.treeref("a"), b.treeref("b")], lambda b, v: [b.treeref("a"), hasher(b)], True, True)
add_all("forest", lambda b, v: [b.forestref("a"), b.forestref("b")], lambda b, v: [b.forestref("a"), hasher(b)], False, True)


def handles(n):
    def setup(b, v):
        kinds = v[1:].split("-")
        out = []
        for k, name in zip(kinds, "ab"[:n]):
            storage = "Scattered" if k[0] == "s" else "Piled"
            h = b.rc(name, storage, k[1] == "c")
            b.uniform_of(name)
            out.append(b.ref("h" + name, H.L.rcnode, h))
        return out + ([hasher(b)] if n == 1 else [])
    return setup


add_all("rc", handles(2), handles(1), True, True, (".sc-pr", ".pc-sr", ".sr-sc", ".pr-pc"))


def refused(c):
    c.bad("borrow", "goes ahead although the node is exclusively borrowed")


for _fn, _n, _more in (("rc_eq", 2, None), ("rc_ne", 2, None), ("rc_pcmp", 2, None), ("rc_cmp", 2, None), ("rc_hash", 1, hasher), ("rc_fmt", 1, fmtr), ("rc_dbg", 1, fmtr)):
    for _kinds in (("sc", "pr"), ("pr", "sr")):
        for _mode in ("r", "w"):
            def _setup(b, n=_n, more=_more, kinds=_kinds, mode=_mode):
                out = []
                for k, name in zip(kinds, "ab"[:n]):
                    h = b.rc(name, "Scattered" if k[0] == "s" else "Piled", k[1] == "c", borrow=mode if name == "a" else None)
                    b.uniform_of(name)
                    out.append(b.ref("h" + name, H.L.rcnode, h))
                return out + ([more(b)] if more else [])
            PROBES.append(Probe("%s.%s.borrowed-%s" % (_fn, "-".join(_kinds), _mode), ["P26"], _setup, refused if _mode == "w" else (lambda c: None),
                                panics=lambda c, may=_mode == "w": may, opts={"fn": _fn, "prove": "rel"}, borrowed=True))
