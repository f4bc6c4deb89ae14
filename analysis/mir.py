"""Loads the JSON dump of the driver: types, function bodies, control-flow facts."""
import json
import re


class Ty:
    __slots__ = ("id", "name", "k", "d", "path")

    def __init__(self, i, d):
        self.id = i
        self.d = d
        self.name = d["name"]
        self.k = d["k"]
        self.path = d.get("path", "")

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, d):
        self.d = d
        self.id = d["id"]
        self.path = d["path"]
        self.full = d["full"]
        self.body = d.get("body", False)
        self.kind = d["kind"]
        self.crate = d["crate"]
        if self.crate in ("core", "alloc", "std"):
            # a library item printed under the name of a re-export in the crate
            self.path = re.sub(r"\btrees::\w+::(?=fmt|rt|rc|cell|ptr|mem|vec|ops|cmp|iter|hash|pin|marker|sync|collections|boxed)", self.crate + "::", self.path)
        self.item = d.get("item", "")
        self.trait = d.get("trait")
        self.selfty = d.get("self")
        self.targs = d.get("targs", [])
        self.blocks = d.get("blocks", [])
        self.locals = d.get("locals", [])
        self.argc = d.get("argc", 0)
        self.spread = d.get("spread")
        self._loops = None
        self._live = None
        self.names = {}
        for i, n in d.get("names", []):
            self.names.setdefault(i, n)

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    @property
    def loops(self):
        """blocks that are targets of a back edge (reached by normal control flow)"""
        if self._loops is None:
            heads = set()
            state = {}
            stack = [(0, iter(self.succ(0)))]
            state[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if state.get(s) == 1:
                        heads.add(s)
                    elif s not in state:
                        state[s] = 1
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    state[b] = 2
                    stack.pop()
            self._loops = heads
        return self._loops

    # ---- liveness of locals (address-taken locals are always live) ----
    def _places(self):
        taken = set()

        def opl(o):
            return o[1][0] if o[0] in ("c", "m") else None
        return taken

    @property
    def live(self):
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        taken = set([0])
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]

        def ruse(pl, S, D, write=False):
            l, proj = pl
            if not (write and not proj) and l not in D:
                S.add(l)
            for p in proj:
                if p[0] == "i" and p[1] not in D:
                    S.add(p[1])

        def ouse(o, S, D):
            if o[0] in ("c", "m"):
                ruse(o[1], S, D)

        for bi, b in enumerate(self.blocks):
            S, D = use[bi], deff[bi]
            for s in b["s"]:
                if s[0] == "=":
                    pl, rv = s[1], s[2]
                    k = rv[0]
                    if k == "use":
                        ouse(rv[1], S, D)
                    elif k == "rep":
                        ouse(rv[1], S, D)
                    elif k == "ref":
                        ruse(rv[1], S, D)
                        if not any(p[0] == "*" for p in rv[1][1]):
                            taken.add(rv[1][0])
                    elif k == "cast":
                        ouse(rv[2], S, D)
                    elif k == "bin":
                        ouse(rv[2], S, D)
                        ouse(rv[3], S, D)
                    elif k == "un":
                        ouse(rv[2], S, D)
                    elif k == "disc":
                        ruse(rv[1], S, D)
                    elif k == "agg":
                        for o in rv[3]:
                            ouse(o, S, D)
                    elif k == "aggptr":
                        for o in rv[2]:
                            ouse(o, S, D)
                    ruse(pl, S, D, True)
                    if not pl[1]:
                        D.add(pl[0])
                elif s[0] == "sd":
                    ruse(s[1], S, D)
                elif s[0] == "dead":
                    D.add(s[1])
            t = b["t"]
            if t[0] == "switch":
                ouse(t[1], S, D)
            elif t[0] == "drop":
                ruse(t[1], S, D)
            elif t[0] == "call":
                ouse(t[1], S, D)
                for o in t[2]:
                    ouse(o, S, D)
                if t[3][1]:
                    ruse(t[3], S, D)
                # the destination is defined on the edge; treat as neither
            elif t[0] == "assert":
                ouse(t[1], S, D)
            elif t[0] == "ret":
                S.add(0) if 0 not in D else None
        succ = []
        for bi, b in enumerate(self.blocks):
            ss = list(self.succ(bi))
            t = b["t"]
            u = None
            if t[0] == "drop":
                u = t[3]
            elif t[0] == "call":
                u = t[5]
            elif t[0] == "assert":
                u = t[5]
            if u is not None and u >= 0:
                ss.append(u)
            succ.append(ss)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                o = set()
                for s in succ[bi]:
                    o |= live[s]
                t = self.blocks[bi]["t"]
                if t[0] == "call" and not t[3][1]:
                    o.discard(t[3][0])
                nl = use[bi] | (o - deff[bi])
                if nl != live[bi]:
                    live[bi] = nl
                    ch = True
        self._live = (live, taken)
        return self._live


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.tys = [Ty(i, t) for i, t in enumerate(d["tys"])]
        self.fns = [Fn(f) for f in d["fns"]]
        self.roots = {n: i for n, i in d["roots"]}
        self.by_name = {t.name: t for t in self.tys}

    def ty(self, i):
        return self.tys[i]
