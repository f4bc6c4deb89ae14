"""P17: the tuple traits' implementations, decided on their polymorphic MIR.

A small abstract interpreter runs every item of every implementation once, for unknown component types: the
components' own items are uninterpreted (calls are logged, numbers are atoms), user callbacks are logged.
Branches on unknown numbers are explored on both sides up to the join and merged (if-converted to max)."""
import re
from lin import *

UN = ("un",)
T_ = "trees::TupleTree"
F_ = "trees::TupleForest"
ITEMS = ("SIZE", "descendants", "height", "preorder", "preorder_with_size_hint", "postorder", "postorder_with_size_hint")


class Stuck(Exception):
    pass


class Bad(Exception):
    pass


def agg(v, *f):
    return ("A", v, tuple(f))


def mx(a, b):
    def parts(x):
        if not x.c and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0][0] == "max":
            return set(x.t[0][0][1])
        return {x}
    s = parts(a) | parts(b)
    for x in list(s):
        if any(y is not x and y != x and nonneg(y - x) for y in s):
            s.discard(x)
    if len(s) == 1:
        return s.pop()
    return atom(("max", frozenset(s)))


def nonneg(l):
    return l.c >= 0 and all(k >= 0 for _, k in l.t)


class State:
    __slots__ = ("mem", "log", "conds", "n")

    def __init__(self):
        self.mem = {}
        self.log = ()
        self.conds = ()
        self.n = 0

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.log = self.log
        s.conds = self.conds
        s.n = self.n
        return s


class Run:
    def __init__(self, g, impl):
        self.g = g
        self.fns = {f["id"]: f for f in g["fns"]}
        self.tys = g["tys"]
        self.impl = impl
        self.steps = 0
        self.used = set()
        self.visited = set()
        self.kept = {}
        m = re.match(r"^<(.*) as trees::Tuple(Tree|Forest)<(\w+), (.*)>>$", impl["impl"])
        if not m:
            raise Stuck("unexpected implementation header %s" % impl["impl"])
        selfs, self.kind, self.T, shape = m.groups()
        names = lambda s: [x.strip() for x in s.strip()[1:-1].split(",") if x.strip()] if s.startswith("(") else []
        self.blanket = not selfs.startswith("(")
        self.comps = names(selfs)
        sh = re.match(r"^\(\(\),?\s*(.*)\)$", shape)
        self.shapes = [] if self.blanket else [x.strip() for x in sh.group(1).split(",") if x.strip()] if sh else None
        if self.kind == "Tree" and not self.blanket:
            if not self.comps or self.comps[0] != self.T:
                raise Stuck("the first component of %s is not the datum" % impl["impl"])
            self.comps = self.comps[1:]
        if self.shapes is None or len(self.comps) != len(self.shapes) or len(set(self.comps)) != len(self.comps):
            raise Bad("components and shapes of %s do not correspond" % impl["impl"])
        self.index = {(c, s): k for k, (c, s) in enumerate(zip(self.comps, self.shapes))}
        self.n = len(self.comps)

    # ------------------------------------------------------------ places and values
    def ty(self, i):
        return self.tys[i]

    def proj(self, st, fr, pl):
        r, path = ("L", fr, pl[0]), ()
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.get(st, (r, path))
                if v[0] != "R":
                    raise Stuck("dereference of %r" % (v,))
                r, path = v[1], v[2]
            elif k == "f":
                path += (("f", e[1]),)
            elif k == "d":
                path += (("d", e[1]),)
            elif k == "i":
                v = self.get(st, (("L", fr, e[1]), ()))
                if not (isinstance(v, Lin) and v.is_const()):
                    raise Stuck("unknown index")
                path += (("f", v.c),)
            elif k == "c" and not e[3]:
                path += (("f", e[1]),)
            else:
                raise Stuck("projection %s" % k)
        return r, path

    def get(self, st, rp):
        r, path = rp
        v = st.mem.get(r, UN)
        for k, i in path:
            if k == "d":
                continue
            if isinstance(v, Lin) or v[0] not in ("A", "V", "cl"):
                raise Stuck("field of %r" % (v,))
            fs = v[1] if v[0] == "V" else v[2]
            if i >= len(fs):
                raise Stuck("index")
            v = fs[i]
        return v

    def set(self, st, rp, x):
        r, path = rp
        path = [p for p in path if p[0] != "d"]

        def go(v, path):
            if not path:
                return x
            i = path[0][1]
            if v == UN:
                v = agg(0)
            if isinstance(v, Lin) or v[0] not in ("A", "V", "cl"):
                raise Stuck("store into %r" % (v,))
            fs = list(v[1] if v[0] == "V" else v[2])
            while len(fs) <= i:
                fs.append(UN)
            fs[i] = go(fs[i], path[1:])
            return ("V", tuple(fs)) if v[0] == "V" else (v[0], v[1], tuple(fs))
        st.mem[r] = go(st.mem.get(r, UN), path)

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(st, o[1])
        rp = self.proj(st, fr, o[1])
        v = self.get(st, rp)
        if v == UN:
            raise Stuck("use of a value moved away")
        if o[0] == "m" and tokens(v):
            self.set(st, rp, UN)
        return v

    def const(self, st, k):
        t = self.ty(k["ty"])
        if "fn" in k or t["k"] == "fndef":
            return ("fn", k["ty"])
        if "cfn" in k:
            c = k["cfn"]
            if isinstance(c, int):
                return self.const_item(st, c)
            return self.comp_const(c)
        if "v" in k and "int" not in k:
            k = k["v"]
        if "int" in k:
            v = int(k["int"])
            bits = 8 * int(k.get("sz", 8))
            if t["k"] == "int" and v >= 1 << (bits - 1):
                v -= 1 << bits
            return const(v)
        if t["k"] == "closure":
            return ("cl", k["ty"], ())
        if "zst" in k:
            return agg(0)
        raise Stuck("constant %s" % t["name"][:60])

    def const_item(self, st, fid):
        s2 = State()
        st.n += 1
        s2.n = 1000 * st.n
        outs = self.call_body(s2, fid, [])
        if len(outs) != 1:
            raise Stuck("constant with several values")
        if outs[0][0].log:
            raise Bad("a constant has effects")
        v = outs[0][1]
        if not isinstance(v, Lin) and v[0] == "R":      # a promoted constant lives on
            r = ("H", s2.n + 1)
            st.mem[r] = self.get(s2, (v[1], ())) if v[1] in s2.mem else self.kept.get(v[1], UN)
            return ("R", r, v[2])
        return v

    def comp(self, args):
        if len(args) >= 3 and args[1] == self.T:
            if args[0] == self.T and args[2] == "()":
                return "d"
            return self.index.get((args[0], args[2]))

    def comp_const(self, c):
        if c["unres"].endswith("::TupleTree::SIZE"):
            k = self.comp(c["args"])
            if k == "d":
                return agg(0, ZERO, ZERO)
            if k is not None:
                return agg(0, atom(("deg", k)), atom(("des", k)))
        raise Stuck("constant %s<%s>" % (c["unres"], ", ".join(c["args"])))

    # ------------------------------------------------------------ conditions
    def known(self, st, c):
        kind, a, b = c
        d = a - b
        if kind == "gt":
            if nonneg(d - 1):
                return True
            if nonneg(-d):
                return False
        elif kind == "ge":
            if nonneg(d):
                return True
            if nonneg(-d - 1):
                return False
        else:
            if d.is_const():
                return d.c == 0
            if nonneg(d - 1) or nonneg(-d - 1):
                return False
        for k2, t in st.conds:
            if k2 == c:
                return t
        if kind in ("ge", "gt"):
            # natural numbers: a >= 1  <=>  a > 0  <=>  not a == 0
            x = a - b + 1 if kind == "ge" else a - b
            for (k2, p, q), t in st.conds:
                if k2 == "eq" and not t and (p - q == x) and nonneg(x):
                    return True
                if k2 == "eq" and t and (p - q == x) and nonneg(x):
                    return False
        if kind == "eq":
            for (k2, p, q), t in st.conds:
                if k2 == "gt" and q == ZERO and p == d:
                    return not t
                if k2 == "ge" and q == ONE and p == d:
                    return not t
        return None

    # ------------------------------------------------------------ execution
    def call_body(self, st, fid, args):
        """[(state, value)] of a call to a function with a body"""
        f = self.fns[fid]
        if not f.get("body"):
            raise Stuck("no body of %s" % f["full"])
        self.used.add(f["full"])
        st.n += 1
        if st.n % 1000 > 400:
            raise Stuck("recursion")
        fr = st.n
        if f.get("spread") is not None:
            raise Stuck("spread arguments")
        if f.get("closure") and len(args) == 2 and f["argc"] != 2:
            args = [args[0]] + list(args[1][2])
        elif f.get("closure") and len(args) == 2 and f["argc"] == 2:
            args = [args[0], args[1][2][0]]
        if len(args) != f["argc"]:
            raise Stuck("argument count of %s" % f["full"])
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        outs = []
        for s in self.run(st, f, fr, 0, None):
            outs.append((s, s.mem.get(("L", fr, 0), agg(0))))
        for s, v in outs:
            if not isinstance(v, Lin) and v[0] == "R":
                self.kept[v[1]] = s.mem.get(v[1], UN)
            for k in [k for k in s.mem if k[0] == "L" and k[1] == fr]:
                del s.mem[k]
        return outs

    def run(self, st, f, fr, b, stop):
        """states that reach block `stop` (None: return) from block b"""
        todo = [(st, b)]
        out = []
        while todo:
            st, b = todo.pop()
            while True:
                if b == stop:
                    out.append(st)
                    break
                self.steps += 1
                if self.steps > 200000:
                    raise Stuck("too many steps")
                bl = f["blocks"][b]
                self.visited.add((f["full"], b))
                for s in bl["s"]:
                    self.stmt(st, fr, f, s)
                t = bl["t"]
                k = t[0]
                if k == "goto":
                    b = t[1]
                elif k == "ret":
                    if stop is None:
                        out.append(st)
                    else:
                        raise Stuck("return inside a branch")
                    break
                elif k == "unreachable":
                    break
                elif k == "drop":
                    v = self.get(st, self.proj(st, fr, t[1]))
                    for x in tokens(v):
                        st.log += (("drop", x),)
                    self.set(st, self.proj(st, fr, t[1]), UN)
                    b = t[2]
                elif k == "assert":
                    c = self.operand(st, fr, t[1])
                    v = self.truth(st, c)
                    if v is None:
                        raise Bad("an arithmetic overflow is possible in %s" % f["full"])
                    if v != t[2]:
                        raise Bad("%s fails its assertion (%s)" % (f["full"], t[3][:40]))
                    b = t[4]
                elif k == "switch":
                    v = self.operand(st, fr, t[1])
                    r = self.pick(st, v, t[2], t[3], f)
                    if isinstance(r, int):
                        b = r
                        continue
                    c, bt, bf = r
                    s1, s2 = st.copy(), st
                    s1.conds += ((c, True),)
                    s2.conds += ((c, False),)
                    j = self.join(f, b)
                    if j is None:
                        todo.append((s1, bt))
                        b = bf
                        continue
                    try:
                        o1 = self.run(s1.copy(), f, fr, bt, j)
                        o2 = self.run(s2.copy(), f, fr, bf, j)
                    except Stuck as e:
                        if "inside a branch" not in str(e):
                            raise
                        todo.append((s1, bt))
                        b = bf
                        continue
                    m = None
                    if len(o1) == 1 and len(o2) == 1:
                        m = merge(o1[0], o2[0], c)
                    if m is not None:
                        st, b = m, j
                        continue
                    rest = o1 + o2
                    if not rest:
                        break
                    for s in rest[1:]:
                        todo.append((s, j))
                    st, b = rest[0], j
                elif k == "call":
                    fn = self.operand(st, fr, t[1])
                    args = [self.operand(st, fr, a) for a in t[2]]
                    outs = self.call(st, fn, args, f)
                    if t[4] is None or t[4] < 0:
                        break
                    if not outs:
                        break
                    for s, v in outs:
                        self.set(s, self.proj(s, fr, t[3]), v)
                    for s, _ in outs[1:]:
                        todo.append((s, t[4]))
                    st, b = outs[0][0], t[4]
                elif k in ("resume", "abort"):
                    raise Stuck("unwinding")
                else:
                    raise Stuck("terminator %s" % k)
        return out

    def join(self, f, b):
        """immediate postdominator of a block (ordinary edges)"""
        pd = f.get("_pdom")
        if pd is None:
            succ = {}
            for i, bl in enumerate(f["blocks"]):
                if bl.get("c"):
                    continue
                t = bl["t"]
                nxt = {"goto": lambda: [t[1]], "drop": lambda: [t[2]], "assert": lambda: [t[4]], "call": lambda: [t[4]] if t[4] is not None and t[4] >= 0 else [],
                       "switch": lambda: [x[1] for x in t[2]] + [t[3]], "ret": lambda: ["end"]}.get(t[0], lambda: [])()
                succ[i] = {x for x in nxt if x == "end" or x is not None and f["blocks"][x]["t"][0] != "unreachable"}
            full = set(succ) | {"end"}
            P = {i: set(full) for i in succ}
            P["end"] = {"end"}
            change = True
            while change:
                change = False
                for i in sorted(succ, reverse=True):
                    if not succ[i]:
                        continue
                    n = {i} | set.intersection(*[P.get(x, full) for x in succ[i]])
                    if n != P[i]:
                        P[i] = n
                        change = True
            pd = {}
            for i in succ:
                c = P[i] - {i}
                for x in c:
                    if x in P and all(y in P[x] for y in c):
                        pd[i] = x
            f["_pdom"] = pd
        j = pd.get(b)
        return j if isinstance(j, int) and j != b else None

    def truth(self, st, v):
        if isinstance(v, Lin):
            return v.c != 0 if v.is_const() else None
        if v[0] == "C":
            r = self.known(st, v[1])
            return None if r is None else (r if v[2] else not r)
        if v[0] == "ovf":
            r = self.known(st, ("ge", v[1], ZERO)) if not nonneg(v[1]) else True
            if r is None and not v[2]:
                return None
            return not r if r is not None else None
        raise Stuck("truth of %r" % (v,))

    def pick(self, st, v, arms, other, f):
        if not isinstance(v, Lin) and v[0] == "C":
            t = self.truth(st, v)
            d = {a: b for a, b in arms}
            bf = d.get("0", other)
            bt = d.get("1", other)
            if t is not None:
                return bt if t else bf
            return (v[1], bt, bf) if v[2] else (v[1], bf, bt)
        if isinstance(v, Lin):
            if v.is_const():
                for a, b in arms:
                    if self.arm(a, f) == v.c:
                        return b
                return other
            for i, (a, b) in enumerate(arms):
                c = ("eq", v, const(int(a)))
                t = self.known(st, c)
                if t:
                    return b
                if t is None:
                    if len(arms) > i + 1:
                        raise Stuck("switch over several values of an unknown number")
                    return (c, b, other)
            return other
        raise Stuck("switch on %r" % (v,))

    def arm(self, a, f):
        v = int(a)
        return v - 256 if 128 <= v < 256 and self.small else v

    small = True

    def stmt(self, st, fr, f, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fr, f, s[2])
            self.set(st, self.proj(st, fr, s[1]), v)
        elif k == "dead":
            st.mem.pop(("L", fr, s[1]), None)
        elif k == "sd":
            rp = self.proj(st, fr, s[1])
            v = self.get(st, rp)
            self.set(st, rp, ("A", s[2], v[2] if v != UN and v[0] == "A" else ()))
        elif k in ("nop", "live"):
            pass
        else:
            raise Stuck("statement %s" % k)

    def rvalue(self, st, fr, f, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            r, path = self.proj(st, fr, rv[1])
            return ("R", r, path)
        if k == "agg":
            t = self.ty(rv[1])
            fs = tuple(self.operand(st, fr, x) for x in rv[3])
            if t["k"] == "array":
                return ("V", fs)
            if t["k"] == "closure":
                return ("cl", rv[1], fs)
            return ("A", rv[2], fs)
        if k == "cast":
            return self.operand(st, fr, rv[2])
        if k == "disc":
            v = self.get(st, self.proj(st, fr, rv[1]))
            if not isinstance(v, Lin) and v[0] == "A":
                return const(v[1])
            if not isinstance(v, Lin) and v[0] == "O":
                # Ordering: not greater / equal / less are explored on demand
                a, b = v[1], v[2]
                g = self.known(st, ("gt", a, b))
                e = self.known(st, ("eq", a, b))
                if g:
                    return ONE
                if e:
                    return ZERO
                raise Stuck("three-way comparison of unknown numbers")
            raise Stuck("discriminant of %r" % (v,))
        if k == "bin":
            return self.bin(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if isinstance(v, Lin) and v.is_const():
                    return ONE - v
                if not isinstance(v, Lin) and v[0] == "C":
                    return ("C", v[1], not v[2])
            if rv[1] == "PtrMetadata" and v[0] == "R":
                w = self.get(st, (v[1], v[2]))
                if w[0] == "V":
                    return const(len(w[1]))
        raise Stuck("rvalue %s" % k)

    def bin(self, st, op, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op.startswith(("Add", "Sub", "Mul")):
                if op.startswith("Mul"):
                    if a.is_const():
                        r = b.scale(a.c)
                    elif b.is_const():
                        r = a.scale(b.c)
                    else:
                        raise Stuck("product")
                else:
                    r = a + b if op.startswith("Add") else a - b
                if op.startswith("Sub") and not nonneg(r):
                    ok = self.known(st, ("ge", a, b))
                    if op.endswith("WithOverflow"):
                        return agg(0, r, ("C", ("ge", a, b), False))
                    if ok is not True:
                        raise Bad("a subtraction may go below zero")
                if op.endswith("WithOverflow"):
                    return agg(0, r, ZERO)
                return r
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                c = {"Eq": ("eq", a, b), "Ne": ("eq", a, b), "Gt": ("gt", a, b), "Ge": ("ge", a, b), "Lt": ("gt", b, a), "Le": ("ge", b, a)}[op]
                v = ("C", c, op != "Ne")
                t = self.truth(st, v)
                return v if t is None else (ONE if t else ZERO)
            if op == "Cmp":
                return ("O", a, b)
        if op in ("BitAnd", "BitOr", "Eq", "Ne"):
            x, y = (z if isinstance(z, Lin) else ({True: ONE, False: ZERO}.get(self.truth(st, z))) for z in (a, b))
            if op == "BitAnd" and (x == ZERO or y == ZERO):
                return ZERO
            if op == "BitAnd" and x == ONE:
                return b
            if op == "BitAnd" and y == ONE:
                return a
            if op == "BitOr" and (x == ONE or y == ONE):
                return ONE
        raise Stuck("operation %s" % op)

    # ------------------------------------------------------------ calls
    def deref(self, st, v):
        while not isinstance(v, Lin) and v[0] == "R":
            w = self.get(st, (v[1], v[2]))
            if isinstance(w, Lin) or w[0] != "R":
                return w
            v = w
        return v

    def is_f(self, st, v):
        while not isinstance(v, Lin) and v[0] == "R":
            if v[1] == ("f",):
                return True
            v = self.get(st, (v[1], v[2]))
        return v == ("f",)

    def apply(self, st, fn, args):
        """a closure or function item or the user's callback, called with a list of arguments"""
        w = self.deref(st, fn)
        if self.is_f(st, fn):
            st.log += (("visit",) + tuple(args),)
            return [(st, agg(0))]
        if not isinstance(w, Lin) and w[0] == "cl":
            t = self.ty(w[1])
            fid = t["fn"]
            fo = self.fns[fid]
            me = fn if fn[0] == "R" else None
            self_ty = self.ty(fo["locals"][1])
            st.n += 1
            if self_ty["k"] == "ref":
                if me is None:
                    r = ("H", st.n)
                    st.mem[r] = w
                    me = ("R", r, ())
                env = me
            else:
                env = w
            return self.call_body_(st, fid, [env] + list(args))
        if not isinstance(w, Lin) and w[0] == "fn":
            return self.call(st, w, list(args), None)
        raise Stuck("call of %r" % (w,))

    def call_body_(self, st, fid, args):
        f = self.fns[fid]
        self.used.add(f["full"])
        if not f.get("body") or len(args) != f["argc"]:
            raise Stuck("closure body of %s" % f["full"])
        st.n += 1
        fr = st.n
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        return [(s, s.mem.get(("L", fr, 0), agg(0))) for s in self.run(st, f, fr, 0, None)]

    def call(self, st, fn, args, caller):
        if fn[0] != "fn":
            raise Stuck("call of %r" % (fn,))
        t = self.ty(fn[1])
        d = t["fn"]
        if isinstance(d, int):
            f = self.fns[d]
            if f.get("body"):
                return self.call_body(st, d, args)
            return self.lib(st, f["path"], args, t)
        p, ta = d["unres"], d["args"]
        if p.startswith("trees::TupleTree::"):
            return self.component(st, p.split("::")[-1], ta, args)
        return self.lib(st, p, args, t)

    def component(self, st, item, ta, args):
        k = self.comp(ta)
        if k is None:
            raise Bad("an item of <%s as TupleTree<%s>> is used, which is none of the components" % (ta[0], ", ".join(ta[1:3])))
        if item == "height":
            return [(st, ONE if k == "d" else atom(("h", k)))]
        if item == "descendants":
            if not isinstance(args[0], Lin):
                raise Stuck("level")
            return [(st, ZERO if k == "d" else atom(("dl", k, args[0])))]
        if item in ITEMS:
            me, f = args
            if not self.is_f(st, f):
                raise Bad("a component is visited with another callback")
            if k == "d":
                if me != ("tok", "d"):
                    raise Bad("a component is visited as the datum")
                st.log += (("visit", agg(1, me)) + ((agg(0, ZERO, ZERO),) if item.endswith("hint") else ()),)
            else:
                if me != ("tok", k):
                    raise Bad("component %s is visited as component %d" % (me[1:] and me[1], k))
                st.log += ((item, k),)
            return [(st, agg(0))]
        raise Stuck("component item %s" % item)

    def lib(self, st, p, args, t):
        p = re.sub(r"^(core|alloc)::", "std::", re.sub(r"::<[^:]*>(?=::|$)", "", p))
        name = p.split("::")[-1]
        D = lambda v: self.deref(st, v)
        if name in ("call_mut", "call_once", "call"):
            a = args[1]
            return self.apply(st, args[0], list(a[2]) if a[0] == "A" else [])
        if name == "default" and not args:
            return [(st, ZERO)]
        if name in ("iter", "into_iter", "iter_mut"):
            v = args[0]
            if not isinstance(v, Lin) and v[0] == "I":
                return [(st, v)]
            if v[0] == "R":
                w = D(v)
                if w[0] == "I":
                    return [(st, v)]
                if w[0] == "V":
                    while self.get(st, (v[1], v[2]))[0] == "R":
                        v = self.get(st, (v[1], v[2]))
                    return [(st, ("I", tuple(("R", v[1], v[2] + (("f", i),)) for i in range(len(w[1])))))]
            if v[0] == "V":
                return [(st, ("I", v[1]))]
            if v[0] == "A" and v[1] == 0 and len(v[2]) == 2:       # a range
                lo, hi = v[2]
                if isinstance(lo, Lin) and isinstance(hi, Lin) and lo.is_const() and hi.is_const():
                    return [(st, ("I", tuple(const(i) for i in range(lo.c, hi.c))))]
        if name == "next" and args[0][0] == "R":
            rp = (args[0][1], args[0][2])
            w = self.get(st, rp)
            if w[0] == "R":
                rp = (w[1], w[2])
                w = self.get(st, rp)
            if w[0] == "I":
                if not w[1]:
                    return [(st, agg(0))]
                self.set(st, rp, ("I", w[1][1:]))
                return [(st, agg(1, w[1][0]))]
        if args and not isinstance(args[0], Lin) and args[0][0] == "I":
            it = args[0][1]
            if name in ("copied", "cloned"):
                return [(st, ("I", tuple(D(x) for x in it)))]
            if name == "rev":
                return [(st, ("I", tuple(reversed(it))))]
            if name in ("sum", "count"):
                r = ZERO
                for x in it:
                    r = r + (D(x) if name == "sum" else ONE)
                return [(st, r)]
            if name == "chain":
                o = args[1]
                if o[0] == "I":
                    return [(st, ("I", it + o[1]))]
                if o[0] == "V":
                    return [(st, ("I", it + o[1]))]
            if name in ("max", "max_by", "max_by_key"):
                if name == "max_by":
                    self.is_cmp(st, args[1])
                elif name == "max_by_key":
                    self.is_id(st, args[1])
                if not it:
                    return [(st, agg(0))]
                m = D(it[0])
                for x in it[1:]:
                    m = mx(m, D(x))
                if it[0][0] == "R" if not isinstance(it[0], Lin) else False:
                    st.n += 1
                    r = ("H", st.n)
                    st.mem[r] = m
                    return [(st, agg(1, ("R", r, ())))]
                return [(st, agg(1, m))]
            if name == "map":
                outs = [(st, ())]
                for x in it:
                    outs = [(s2, acc + (v,)) for s, acc in outs for s2, v in self.apply(s, args[1], [x])]
                return [(s, ("I", acc)) for s, acc in outs]
            if name == "fold":
                outs = [(st, args[1])]
                for x in it:
                    outs = [o for s, acc in outs for o in self.apply(s, args[2], [acc, x])]
                return outs
            if name == "reduce":
                if not it:
                    return [(st, agg(0))]
                outs = [(st, it[0])]
                for x in it[1:]:
                    outs = [o for s, acc in outs for o in self.apply(s, args[1], [acc, x])]
                return [(s, agg(1, v)) for s, v in outs]
        if name in ("max", "min") and len(args) == 2 and all(isinstance(D(a), Lin) for a in args):
            if name == "max":
                return [(st, mx(D(args[0]), D(args[1])))]
        if name in ("cmp", "partial_cmp") and len(args) == 2 and all(isinstance(D(a), Lin) for a in args):
            o = ("O", D(args[0]), D(args[1]))
            return [(st, o if name == "cmp" else agg(1, o))]
        if name in ("eq", "ne", "lt", "le", "gt", "ge") and len(args) == 2 and all(isinstance(D(a), Lin) for a in args):
            return [(st, self.bin(st, name.capitalize(), D(args[0]), D(args[1])))]
        if name in ("is_gt", "is_ge", "is_lt", "is_le", "is_eq", "is_ne") and args[0][0] == "O":
            return [(st, self.bin(st, name[3:].capitalize(), args[0][1], args[0][2]))]
        if name in ("unwrap", "expect") and args[0][0] == "A":
            if args[0][1] != 1:
                raise Bad("unwrap of None")
            return [(st, args[0][2][0])]
        if name in ("unwrap_or", "unwrap_or_default", "map_or", "unwrap_or_else") and args[0][0] == "A":
            if args[0][1] == 1:
                if name == "map_or":
                    return self.apply(st, args[2], [args[0][2][0]])
                return [(st, args[0][2][0])]
            if name == "unwrap_or_else":
                return self.apply(st, args[1], [])
            return [(st, args[1] if len(args) > 1 else ZERO)]
        if "std::ops::" in p and name in ("add", "sub") and len(args) == 2:
            a, b = (D(x) if not isinstance(x, Lin) and x[0] == "R" else x for x in args)
            if isinstance(a, Lin) and isinstance(b, Lin):
                return [(st, a + b if name == "add" else a - b)]
        if name in ("copied", "cloned") and args[0][0] == "A":
            return [(st, agg(1, D(args[0][2][0])) if args[0][1] == 1 else args[0])]
        if name in ("checked_sub", "saturating_sub", "wrapping_sub") and isinstance(args[0], Lin):
            c = ("ge", args[0], args[1])
            t = self.known(st, c)
            if t is None:
                s2 = st.copy()
                st.conds += ((c, True),)
                s2.conds += ((c, False),)
                if name == "checked_sub":
                    return [(st, agg(1, args[0] - args[1])), (s2, agg(0))]
                if name == "saturating_sub":
                    return [(st, args[0] - args[1]), (s2, ZERO)]
            elif t:
                r = args[0] - args[1]
                return [(st, agg(1, r) if name == "checked_sub" else r)]
            elif name != "wrapping_sub":
                return [(st, agg(0) if name == "checked_sub" else ZERO)]
        if name == "clone" and args[0][0] == "R" and not tokens(D(args[0])):
            return [(st, D(args[0]))]
        if name == "forget" or name == "drop":
            for x in tokens(args[0]):
                st.log += ((name, x),)
            return [(st, agg(0))]
        if name == "len" and D(args[0])[0] == "V":
            return [(st, const(len(D(args[0])[1])))]
        if name in ("deref", "as_ref", "borrow", "as_slice", "identity", "from", "into", "borrow_mut", "deref_mut", "by_ref"):
            return [(st, args[0])]
        raise Stuck("library function %s" % p)

    def is_cmp(self, st, fn):
        """the comparator orders two unknown numbers as they are"""
        x, y = atom(("x",)), atom(("y",))
        s = st.copy()
        s.mem[("X",)], s.mem[("Y",)] = x, y
        outs = self.apply(s, fn, [("R", ("X",), ()), ("R", ("Y",), ())])
        for s, v in outs:
            if v != ("O", x, y):
                raise Bad("the largest component height is chosen by another order")

    def is_id(self, st, fn):
        x = atom(("x",))
        s = st.copy()
        s.mem[("X",)] = x
        for s, v in self.apply(s, fn, [("R", ("X",), ())]):
            if self.deref(s, v) != x:
                raise Bad("the largest component height is chosen by another key")


def tokens(v):
    if isinstance(v, Lin) or v is None:
        return []
    if v[0] == "tok":
        return [v[1]]
    if v[0] == "A":
        return [x for y in v[2] for x in tokens(y)]
    if v[0] in ("V", "I"):
        return [x for y in v[1] for x in tokens(y)]
    if v[0] == "cl":
        return [x for y in v[2] for x in tokens(y)]
    return []


def merge(s1, s2, c):
    """one state for both outcomes of a comparison: numbers that differ are its maximum"""
    if s1.log != s2.log or s1.conds[:-1] != s2.conds[:-1] or not s1.conds or s1.conds[-1][0] != c:
        return None
    kind, a, b = c
    M = mx(a, b)

    def go(x, y):
        if x == y:
            return x
        if isinstance(x, Lin) and isinstance(y, Lin):
            if kind == "eq":
                return None
            for p in (a, M):
                z = x - p
                if y - z == b or y - z == M:
                    return M + z
            return None
        if isinstance(x, Lin) or isinstance(y, Lin) or x[0] != y[0]:
            return UN if UN in (x, y) else None
        if x[0] == "A" and x[1] == y[1] and len(x[2]) == len(y[2]):
            f = tuple(go(p, q) for p, q in zip(x[2], y[2]))
            return None if None in f else ("A", x[1], f)
        if x[0] == "V" and len(x[1]) == len(y[1]):
            f = tuple(go(p, q) for p, q in zip(x[1], y[1]))
            return None if None in f else ("V", f)
        if x[0] == "R":
            return None
        return None
    m = s1.copy()
    m.conds = s1.conds[:-1]
    m.n = max(s1.n, s2.n)
    for k in set(s1.mem) | set(s2.mem):
        if k not in s1.mem or k not in s2.mem:
            m.mem.pop(k, None)
            continue
        v = go(s1.mem[k], s2.mem[k])
        if v is None:
            return None
        m.mem[k] = v
    return m


# ---------------------------------------------------------------- specification
def expected(r, item):
    n = r.n
    des = ZERO
    for k in range(n):
        des = des + atom(("des", k)) + 1
    size = agg(0, const(n), des)
    hint = (size,) if item.endswith("hint") else ()
    if item in ("preorder", "preorder_with_size_hint", "postorder", "postorder_with_size_hint"):
        if r.blanket:
            return [("visit", agg(1, ("tok", "d"))) + ((agg(0, ZERO, ZERO),) if hint else ())]
        kids = [(item, k) for k in range(n)]
        if r.kind == "Forest":
            return kids
        if n == 0:
            return [("visit", agg(1, ("tok", "d"))) + hint]
        br = ("visit", agg(0, ("tok", "d"))) + hint
        fr = ("visit", agg(2)) + hint
        return [br] + kids + [fr] if item.startswith("pre") else [fr] + kids + [br]
    return size


def show(ev, n):
    def e(x):
        if x[0] == "visit":
            v = x[1]
            s = {0: "Branch", 1: "Leaf", 2: "Frame"}[v[1]] if v[0] == "A" else str(v)
            return s + ("(size %s)" % ",".join(map(repr, x[2][2])) if len(x) > 2 and x[2][0] == "A" else "")
        return "%s of component %s" % x[:2]
    return ", ".join(e(x) for x in ev)


def check_item(g, impl, item, fid):
    """(problems, steps, functions)"""
    r = Run(g, impl)
    f = r.fns[fid]
    st = State()
    toks = [("tok", k) for k in range(r.n)]
    me = ("tok", "d") if r.blanket else agg(0, *([("tok", "d")] if r.kind == "Tree" else []), *toks)
    st.mem[("f",)] = ("f",)
    lvl = atom(("level",))
    args = {"SIZE": [], "height": [], "descendants": [lvl]}.get(item, [me, ("R", ("f",), ())])
    outs = r.call_body(st, fid, args)
    bad = []
    exp = expected(r, item)
    for s, v in outs:
        if item == "SIZE":
            if v[0] != "A" or tuple(v[2]) != tuple(exp[2]):
                bad.append("SIZE is {degree: %r, descendants: %r}, expected {%r, %r}" % (tuple(v[2]) + tuple(exp[2])))
        elif item == "height":
            if r.blanket:
                h = ONE
            else:
                h = ZERO
                for k in range(r.n):
                    h = mx(h, atom(("h", k)))
                if r.kind == "Tree":
                    h = h + 1
            if v != h or s.conds:
                bad.append("height() is %r, expected %r" % (v, h))
        elif item == "descendants":
            z = r.known(s, ("eq", lvl, ZERO))
            e0, e1 = const(r.n), ZERO
            for k in range(r.n):
                e1 = e1 + atom(("dl", k, lvl - 1))
            if z is not False and v != e0:
                bad.append("descendants(0) is %r, expected %r" % (v, e0))
            if z is not True and v != e1:
                bad.append("descendants(level) is %r, expected %r" % (v, e1))
        else:
            if list(s.log) != exp:
                bad.append("%s visits [%s], expected [%s]" % (item, show(s.log, r.n), show(exp, r.n)))
    if not outs:
        bad.append("%s never returns" % item)
    return bad, r.steps, r.used


def check(g):
    """(violations, coverage)"""
    out, cov = [], {"implementations": 0, "items": 0, "steps": 0}
    have = {"Tree": set(), "Forest": set()}
    fns = set()
    for impl in g["impls"]:
        kind = "Forest" if impl["trait"].endswith("Forest") else "Tree"
        n = impl["arity"]
        have[kind].add(n if n < 0 else n - (kind == "Tree"))
        label = "%s arity %s" % (kind.lower(), "of a plain datum" if n < 0 else n - (kind == "Tree"))
        cov["implementations"] += 1
        items = dict(impl["items"])
        for item in ITEMS:
            key = "tuple|%s|%s" % (label, item)
            if item not in items:
                out.append((key, "%s: %s is not defined by the implementation (undecided)" % (label, item)))
                continue
            cov["items"] += 1
            try:
                bad, steps, used = check_item(g, impl, item, items[item])
                cov["steps"] += steps
                fns |= used
            except Bad as e:
                bad = [str(e)]
            except Stuck as e:
                bad = ["undecided: %s" % e]
            for b in bad[:2]:
                out.append((key, "%s, %s: %s" % (label, item, b)))
    for kind, ar in have.items():
        miss = [n for n in range(0, 33) if n not in ar]
        if miss:
            out.append(("tuple|missing|" + kind, "no Tuple%s implementation for arities %s" % (kind, miss)))
    if -1 not in have["Tree"]:
        out.append(("tuple|missing|datum", "no TupleTree implementation for a plain datum"))
    cov["functions"] = len(fns)
    return out, cov
