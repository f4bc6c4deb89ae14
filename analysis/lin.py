"""Affine integer expressions over atoms and a small Fourier-Motzkin entailment check.

Atoms are tuples; every atom denotes a natural number:
  ('s', n)          plain symbol
  ('W', S, Lin)     number of nodes in the first Lin trees of the tree sequence S (prefix sum; W(S,0)=0)
  ('D', S, Lin)     degree of tree number Lin of sequence S
  ('K', S, Lin)     number of extra user handles of the root of that tree
  ('X', S, Lin)     buffer index of that node
  anything else     opaque
Sequences S: any hashable; ('k', S, Lin) is the sequence of the children of tree number Lin of S.
"""


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, mk_terms(d))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, v * k) for a, v in self.t))

    def is_const(self):
        return not self.t

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = show_atom(a)
            s.append(("+" if k > 0 else "-") + (str(abs(k)) + "*" if abs(k) != 1 else "") + n)
        if self.c or not s:
            s.append(("+" if self.c >= 0 else "-") + str(abs(self.c)))
        r = "".join(s)
        return r[1:] if r.startswith("+") else r


_akey = {}


def akey(a):
    k = _akey.get(a)
    if k is None:
        k = _akey[a] = repr(a)
    return k


def mk_terms(d):
    if len(d) == 1:
        return tuple(d.items())
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


def show_seq(s):
    if isinstance(s, tuple) and s and s[0] == "k":
        return "kids(%s[%r])" % (show_seq(s[1]), s[2])
    if isinstance(s, tuple):
        return "/".join(str(x) if not isinstance(x, tuple) else show_seq(x) for x in s)
    return str(s)


def show_atom(a):
    if a[0] == "s":
        return "%s" % (a[1],)
    if a[0] in ("W", "D", "K", "X") and len(a) == 3:
        return "%s(%s,%r)" % (a[0], show_seq(a[1]), a[2])
    return str(a)


ZERO = Lin(0)
ONE = Lin(1)


def const(n):
    return Lin(n)


def atom(a):
    return Lin(0, ((a, 1),))


def sym(n):
    return atom(("s", n))


def infeasible(ineqs, cap=400):
    """ineqs: list of Lin, each >= 0.  True when Fourier-Motzkin (with integer tightening) refutes them."""
    work = {}
    for l in ineqs:
        if not l.t:
            if l.c < 0:
                return True
            continue
        work[l.t] = min(l.c, work[l.t]) if l.t in work else l.c
    cur = [Lin(c, t) for t, c in work.items()]
    while True:
        occ = {}
        for l in cur:
            for a, k in l.t:
                p, n = occ.get(a, (0, 0))
                occ[a] = (p + 1, n) if k > 0 else (p, n + 1)
        if not occ:
            return False
        a = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], akey(x)))
        pos, neg, rest = [], [], []
        for l in cur:
            k = dict(l.t).get(a, 0)
            (pos if k > 0 else neg if k < 0 else rest).append((l, k))
        out = {}

        def add(l):
            if not l.t:
                return l.c < 0
            g = 0
            from math import gcd
            for _, k in l.t:
                g = gcd(g, abs(k))
            if g > 1:
                l = Lin(l.c // g, tuple((x, k // g) for x, k in l.t))
            if l.t in out:
                out[l.t] = min(out[l.t], l.c)
            else:
                out[l.t] = l.c
            return False

        for l, _ in rest:
            if add(l):
                return True
        for p, kp in pos:
            for n, kn in neg:
                if add(p.scale(-kn) + n.scale(kp)):
                    return True
        cur = [Lin(c, t) for t, c in out.items()]
        if len(cur) > cap:
            return False
