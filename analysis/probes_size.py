"""Arithmetic and comparison of sizes."""
from core import *
import heap as H
from spec import Probe

PROBES = []
PRE = {}


def numbers(b, n):
    d, m = sym("d" + n), sym("m" + n)
    b.st.assume_ge0(d)
    b.st.assume_ge0(m)
    return d, m


def size(pair):
    v = {H.L.SF["degree"]: pair[0], H.L.SF["descendants"]: pair[1]}
    return A(0, tuple(v[i] for i in range(len(v))))


def fields(c, v):
    if not isinstance(v, A) or len(v.f) != len(H.L.SF):
        raise Inconclusive("result is no Size")
    return v.f[H.L.SF["degree"]], v.f[H.L.SF["descendants"]]


def setup(kinds, sub=False):
    def go(b):
        a, x = numbers(b, "a"), numbers(b, "b")
        if sub:
            b.st.assume_ge0(a[0] - x[0])
            b.st.assume_ge0(a[1] - x[1])
        b.info["ab"] = (a, x)
        return [size(p) if k == "v" else b.obj("s" + n, H.L.size, size(p)) for k, p, n in zip(kinds, (a, x), "ab")]
    return go


def componentwise(sign, place):
    def check(c):
        a, x = c.b.info["ab"]
        v = c.ip.load(c.st, P(("o", "sa"))) if place else c.val
        for what, got, p, q in zip(("degree", "descendants"), fields(c, v), a, x):
            want = p + q if sign > 0 else p - q
            if not isinstance(got, Lin) or not c.st.must_eq(got, want):
                c.bad("size", "%s of the result is %r instead of %r" % (what, got, want))
    return check


def same(negate):
    def check(c):
        a, x = c.b.info["ab"]
        yes = c.truth() != negate
        eq = [c.st.must_eq(p, q) for p, q in zip(a, x)]
        ne = any(c.st.prove_ge0(p - q - 1) or c.st.prove_ge0(q - p - 1) for p, q in zip(a, x))
        if yes and not all(eq):
            c.bad("size", "different sizes are called equal")
        if not yes and not ne:
            c.bad("size", "equal sizes are called different")
    return check


def zero(c):
    if not all(isinstance(x, Lin) and c.st.must_eq(x, ZERO) for x in fields(c, c.val)):
        c.bad("size", "the default size is not zero")


def copy(c):
    if not all(isinstance(x, Lin) and c.st.must_eq(x, y) for x, y in zip(fields(c, c.val), c.b.info["ab"][0])):
        c.bad("size", "the copy differs")


def probe(fn, setup, check):
    PROBES.append(Probe(fn, ["P31"], setup, check, main="P31", opts={"fn": fn}))


probe("sz_add", setup("vv"), componentwise(1, False))
probe("sz_sub", setup("vv", True), componentwise(-1, False))
probe("sz_add_assign", setup("rv"), componentwise(1, True))
probe("sz_sub_assign", setup("rv", True), componentwise(-1, True))
probe("sz_eq", setup("rr"), same(False))
probe("sz_ne", setup("rr"), same(True))
probe("sz_clone", setup("r"), copy)
probe("sz_zero", lambda b: [], zero)
