"""Abstract machine: values, memory, abstract heap of tree nodes with lazily expanded summaries."""
from lin import Lin, ZERO, ONE, const, atom, sym, infeasible, show_seq, akey


class Violation(Exception):
    """A construct that breaks a rule.  rule: short rule name; msg: explanation."""

    def __init__(self, rule, msg):
        Exception.__init__(self, "%s: %s" % (rule, msg))
        self.rule = rule
        self.msg = msg


class Inconclusive(Exception):
    pass


class Fork(Exception):
    """alternatives: functions applied to copies of the state before the step; the step is then repeated"""

    def __init__(self, alts, why=""):
        self.alts = alts
        self.why = why


class Infeasible(Exception):
    pass


class Panic(Exception):
    def __init__(self, kind):
        self.kind = kind


class A:
    """aggregate value: struct / tuple / closure / enum variant"""
    __slots__ = ("v", "f", "_h")

    def __init__(self, v, f):
        self.v = v
        self.f = f
        self._h = None

    def __eq__(self, o):
        return isinstance(o, A) and self.v == o.v and self.f == o.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.v, self.f))
        return self._h

    def __repr__(self):
        return "#%d(%s)" % (self.v, ", ".join(map(repr, self.f)))


class P:
    """pointer: root object, path inside of it, metadata of wide pointers"""
    __slots__ = ("r", "p", "m", "_h")

    def __init__(self, r, p=(), m=None):
        self.r = r
        self.p = p
        self.m = m
        self._h = None

    def __eq__(self, o):
        return isinstance(o, P) and self.r == o.r and self.p == o.p and self.m == o.m

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.r, self.p, self.m))
        return self._h

    def __repr__(self):
        return "&%s%s" % (self.r, "".join("." + str(x) for x in self.p))


class Lazy:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Lazy) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "?" + str(self.k)


class U:
    def __repr__(self):
        return "uninit"


UNINIT = U()
UNIT = A(0, ())
NONE = A(0, ())


def SOME(x):
    return A(1, (x,))


def is_tag(v, t):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == t


class Frame:
    __slots__ = ("fid", "fn", "bb", "ret", "dest", "parent", "depth", "unw", "note", "callbb", "arrived", "hist")

    def __init__(self, fid, fn, bb, dest, ret, parent, unw, note=None, callbb=0, hist=()):
        self.fid = fid
        self.fn = fn
        self.bb = bb
        self.dest = dest      # pointer where the result goes (root, path)
        self.ret = ret        # block of the parent to continue at
        self.parent = parent
        self.unw = unw
        self.note = note
        self.depth = 0 if parent is None else parent.depth + 1
        self.callbb = callbb
        self.arrived = False
        self.hist = hist      # loop heads visited by this activation: ((bb, entries), ...)

    def at(self, bb):
        return Frame(self.fid, self.fn, bb, self.dest, self.ret, self.parent, self.unw, self.note, self.callbb, self.hist)

    def marked(self, hist=None):
        f = self.at(self.bb)
        f.arrived = True
        if hist is not None:
            f.hist = hist
        return f


class State:
    """mem: flat map of locations to immutable values."""
    lh = 0      # the loop head passed last

    def __init__(self):
        self.mem = {}
        self.frame = None
        self.log = ()
        self.facts = ()
        self.sub = {}       # atom -> Lin
        self.alias = {}     # segment end root -> root
        self.names = 0
        self.j = None       # undo journal
        self.trace = ()
        self.ghost = {}
        self.decided = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.frame = self.frame
        s.log = self.log
        s.facts = self.facts
        s.sub = self.sub
        s.alias = self.alias
        s.names = self.names
        s.j = None
        s.trace = self.trace
        s.ghost = self.ghost
        s.decided = self.decided
        s.lh = self.lh
        return s

    # --- journalled stores
    def put(self, k, v):
        if self.j is not None:
            self.j.append((k, self.mem.get(k, UNINIT)))
        self.mem[k] = v

    def rm(self, k):
        if k in self.mem:
            if self.j is not None:
                self.j.append((k, self.mem[k]))
            del self.mem[k]

    def begin(self):
        self.j = []
        self._sv = (self.frame, self.log, self.facts, self.sub, self.alias, self.names, self.trace, self.ghost, self.decided)

    def undo(self):
        for k, v in reversed(self.j):
            if v is UNINIT:
                self.mem.pop(k, None)
            else:
                self.mem[k] = v
        self.j = []
        (self.frame, self.log, self.facts, self.sub, self.alias, self.names, self.trace, self.ghost, self.decided) = self._sv

    def fresh(self, p="x"):
        self.names += 1
        return "%s%d" % (p, self.names)

    def event(self, *e):
        self.log = self.log + (e,)

    # --- arithmetic
    def norm(self, l):
        """rewrites a Lin under the equalities known in this state"""
        if not l.t:
            return l
        sub = self.sub
        out = None
        for a, k in l.t:
            b = self.norm_atom(a)
            if b is not a:
                if out is None:
                    out = Lin(l.c)
                    for x, y in l.t:
                        if x is a:
                            break
                        out = out + Lin(0, ((x, y),))
                out = out + (b.scale(k) if isinstance(b, Lin) else Lin(0, ((b, k),)))
            elif out is not None:
                out = out + Lin(0, ((a, k),))
        return l if out is None else out

    def norm_seq(self, s):
        if isinstance(s, tuple) and s and s[0] == "k":
            a = self.norm_seq(s[1])
            i = self.norm(s[2])
            if a is not s[1] or i is not s[2]:
                return ("k", a, i)
        return s

    def norm_atom(self, a):
        if len(a) == 3 and isinstance(a[2], Lin):
            S = self.norm_seq(a[1])
            i = self.norm(a[2])
            if S is not a[1] or i is not a[2]:
                a = (a[0], S, i)
            if a[0] == "F" and i == ZERO:
                return ONE
            if a[0] == "BB" and (i == ZERO or i == ONE):
                return i
            if a[0] == "Z" and i == ZERO and "bfs" in self.ghost:
                return self.norm(self.ghost["bfs"]["z0"])
            if a[0] == "W":
                if i == ZERO:
                    return ZERO
                # W(kids(S[i]), D(S,i)) = W(S,i+1) - W(S,i) - 1
                if is_tag(S, "k") and i == self.norm(atom(("D", S[1], S[2]))):
                    return self.norm(self.W(S[1], S[2] + 1) - self.W(S[1], S[2]) - 1)
                if S in self.ghost and "len1" in self.ghost[S] and False:
                    pass
        r = self.sub.get(a)
        if r is not None:
            return self.norm(r)
        return a

    def W(self, S, i):
        return atom(("W", S, i)) if i != ZERO else ZERO

    def cnt(self, S, i):
        """number of nodes of the pristine tree S[i]"""
        return self.norm(self.W(S, i + 1) - self.W(S, i))

    def deg(self, S, i):
        return self.norm(atom(("D", S, i)))

    def implied(self, lins):
        """valid inequalities about the atoms occurring in lins"""
        atoms = set()
        for l in lins:
            for a, _ in l.t:
                atoms.add(a)
        out = []
        byS = {}
        for a in atoms:
            out.append(atom(a))
            if a[0] == "W":
                byS.setdefault(a[1], set()).add(a[2])
                out.append(atom(a) - a[2])
        fx = {a[2] for a in atoms if a[0] == "F"}
        if "bfs" in self.ghost:
            import rebuild
            fx |= {k[2] for k in self.sub if k[0] == "F"}
            out += rebuild.lemmas(self, fx, lins)
        for a in list(atoms):
            if a[0] == "D":
                # degree <= descendants
                pass
        for S, idx in byS.items():
            idx = list(idx)
            for i in range(len(idx)):
                for j in range(len(idx)):
                    if i != j:
                        d = idx[j] - idx[i]
                        if d.is_const() and d.c > 0:
                            out.append(atom(("W", S, idx[j])) - atom(("W", S, idx[i])) - d)
        return out

    def prove_ge0(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        if l.c >= 0 and all(k > 0 for _, k in l.t):
            return True
        fs = [self.norm(f) for f in self.facts]
        base = fs + [-l - 1]
        return infeasible(base + self.implied(base))

    def feasible(self):
        fs = [self.norm(f) for f in self.facts]
        return not infeasible(fs + self.implied(fs))

    def assume_ge0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c < 0:
                raise Infeasible()
            return
        if l in self.facts:
            return
        if any(abs(k) == 1 for _, k in l.t) and self.prove_ge0(-l):
            return self.assume_eq(l, ZERO)
        self.facts = strongest(self.facts + (l,))
        if not self.feasible():
            raise Infeasible()

    def assume_eq(self, a, b):
        l = self.norm(a - b)
        if not l.t:
            if l.c != 0:
                raise Infeasible()
            return
        # solve for an atom with coefficient +-1
        best = None
        for x, k in l.t:
            if abs(k) == 1:
                rest = l - Lin(0, ((x, k),))
                e = rest.scale(-k)
                # occurs check (also inside indices)
                if akey(x) in repr_lin(e):
                    continue
                if ("bfs" in self.ghost or "tup" in self.ghost) and (has_F(e) or (x[0] in TABLES and has_F(x[2]))):
                    continue        # prefix sums are only ever replaced by sums without any, so that this ends
                pri = {"s": 0, "D": 1, "K": 1, "X": 2, "W": 3}.get(x[0], 4)
                neg = 0 if (e.c >= 0 and all(kk > 0 for _, kk in e.t)) else 1
                if "bfs" in self.ghost and x in self.ghost["bfs"]["params"]:
                    neg += 2
                c = (neg, pri, len(e.t), -len(repr(x)))
                if best is None or c < best[0]:
                    best = (c, x, e)
        if best is None:
            self.facts = strongest(self.facts + (l, -l))
            if not self.feasible():
                raise Infeasible()
            return
        _, x, e = best
        self.sub = dict(self.sub)
        self.sub[x] = e
        if ("bfs" in self.ghost or "tup" in self.ghost) and x[0] == "s":
            again = []
            for k in [k for k in self.sub if k[0] in TABLES]:
                i = self.norm(k[2])
                if i != k[2]:
                    again.append(((k[0], k[1], i), self.sub.pop(k)))
            for k, v in again:
                self.assume_eq(atom(k), v)
        # naturals
        self.facts = strongest(self.norm(f) for f in self.facts)
        for f in self.facts:
            if not f.t and f.c < 0:
                raise Infeasible()
        en = self.norm(e)
        if not (en.c >= 0 and all(k > 0 for _, k in en.t)):
            self.assume_ge0(en)
        if not self.feasible():
            raise Infeasible()
        # a tree without children has exactly one node and vice versa
        if en == ZERO:
            if x[0] == "D":
                self.assume_eq(self.cnt(x[1], x[2]), ONE)
            for y, v in list(self.sub.items()):
                if y[0] == "D" and y != x and v.t and self.norm(v) == ZERO:
                    self.assume_eq(self.cnt(y[1], y[2]), ONE)

    def decide(self, kind, l):
        """truth of l >= 0 / l == 0; forks when unknown"""
        l = self.norm(l)
        if kind == "ge0":
            if self.prove_ge0(l):
                return True
            if self.prove_ge0(-l - 1):
                return False
            raise Fork([lambda s: s.assume_ge0(l), lambda s: s.assume_ge0(-l - 1)], "%r>=0" % l)
        if kind == "eq0":
            if not l.t:
                return l.c == 0
            if abs(l.c) >= 1 << 60:
                return False        # assumption: fewer than 2^60 nodes and handles
            if self.prove_ge0(l - 1) or self.prove_ge0(-l - 1):
                return False
            if self.prove_ge0(l) and self.prove_ge0(-l):
                return True
            alts = [lambda s: s.assume_eq(l, ZERO)]
            if not self.prove_ge0(-l):
                alts.append(lambda s: s.assume_ge0(l - 1))
            if not self.prove_ge0(l):
                alts.append(lambda s: s.assume_ge0(-l - 1))
            raise Fork(alts, "%r==0" % l)
        raise AssertionError(kind)

    def must_eq(self, a, b):
        return self.norm(a - b) == ZERO or (self.prove_ge0(a - b) and self.prove_ge0(b - a))

    # --- pointer roots
    def root(self, r):
        al = self.alias
        while r in al:
            r = al[r]
        return r

    def nptr(self, p):
        r = self.root(p.r)
        return p if r is p.r else P(r, p.p, p.m)


TABLES = ("F", "BB", "OO")       # functions of a number


def has_F(l):
    return any(a[0] in TABLES or (len(a) == 3 and isinstance(a[2], Lin) and has_F(a[2])) for a, _ in l.t)


def strongest(fs):
    """inequalities without those that differ from a stronger one by a constant"""
    best = {}
    for f in fs:
        if f.t in best:
            if f.c < best[f.t].c:
                best[f.t] = f
        else:
            best[f.t] = f
    return tuple(best.values())


def repr_lin(l):
    return " ".join(akey(a) for a, _ in l.t)
