"""Program model: types, bodies, control-flow facts."""
from terms import *
import terms, seqs

class Unsupported(Exception): pass

VEC = ("alloc::vec::Vec", "alloc::string::String")

class Program:
    def __init__(self, dump):
        self.types = dump["types"]
        self.fns = {f["id"]: f for f in dump["fns"]}
        self.roots = dump["roots"]
        self.bypath = {}
        for f in dump["fns"]:
            self.bypath.setdefault(f["path"], []).append(f)
        terms.TYPES = self.types
        seqs.MODEL[0] = self
        self._cfg = {}
        self.byname = {}
        for i, t in enumerate(self.types): self.byname.setdefault(t.get("s"), i)
    def ty(self, i): return self.types[i]
    def is_int(self, t): return self.types[t]["k"] in ("int", "char")
    def intrange(self, t):
        T = self.types[t]
        if T["k"] == "char": return 0, 0x10FFFF
        if T["k"] == "bool": return 0, 1
        b = T["bits"]
        if T["signed"]: return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1
    def adt(self, t):
        T = self.types[t]
        return T if T["k"] == "adt" else None
    def is_seq(self, t):
        T = self.types[t]
        k = T["k"]
        if k in ("slice", "str", "array"): return True
        return k == "adt" and (T["path"] in VEC or T["path"].endswith("::Vec") or T["path"].endswith("string::String"))
    def elemty(self, t):
        T = self.types[t]
        if T["k"] in ("slice", "array"): return T["t"]
        if T["k"] == "adt" and T["path"].endswith("Vec"): return T["args"][0]
        return self.u8
    @property
    def u8(self): return self.byname["u8"]
    def mksym(self, t, path):
        T = self.types[t]; k = T["k"]
        if k == "int" or k == "char":
            lo, hi = self.intrange(t)
            return A(atom("sym", (path,), lo, hi))
        if k == "bool": return Bo(("b", "sym", (path,)))
        if k == "float": return Op("float", path)
        if k == "array":
            n = T["n"]
            return seqs.mkseq([("in", path, ZERO, K(n), self.ety(T["t"]))])
        if self.is_seq(t):
            ln = A(atom("len", (path,), 0, (1 << 63) - 1))
            return Seq((("in", path, ZERO, ln, self.ety(self.elemty(t))),))
        if k == "ref": return RefV(self.mksym(T["t"], path))
        if k == "tuple":
            return Tup([self.mksym(x, path + (i,)) for i, x in enumerate(T["ts"])])
        if k == "adt":
            if T["path"] == "core::time::Duration":
                return Op("dur", A(atom("sym", (path + ("ns",) if isinstance(path, tuple) else (path, "ns"),), 0, ((1 << 64) - 1) * 10**9 + 10**9 - 1)))
            if "HashMap" in T["path"] or "HashSet" in T["path"]: return Op("map", path, ())
            if T["path"].endswith("Cursor"): return Op("Cursor", self.mksym(T["args"][0], path + ("inner",)), A(atom("sym", (path + ("pos",),), 0, (1 << 64) - 1)))
            if T.get("variants") is not None and (T["kind"] in ("struct", "enum", "Struct", "Enum")):
                return SymAdt(t, path)
            return Op("val", T["path"], path)
        return Op("val", T.get("s"), path)
    def ety(self, t): return "u8" if self.types[t].get("s") == "u8" else t
    def elem(self, path, idx, ety):
        if ety == "u8" or ety is None: return by(path, idx)
        return self.mksym(ety, path + (idx,) if isinstance(path, tuple) else (path, idx))
    def variants(self, t): return self.types[t]["variants"]
    def field(self, v, i, var=None):
        """project a field out of a struct/enum value"""
        if isinstance(v, Adt): return v.f[i]
        if isinstance(v, SymAdt):
            vs = self.variants(v.ty)
            vi = var if var is not None else 0
            name, fty = vs[vi]["fields"][i][0], vs[vi]["fields"][i][1]
            enum = len(vs) > 1 or self.types[v.ty]["kind"].lower() == "enum"
            return self.mksym(fty, v.path + ((vs[vi]["name"], name) if enum else (name,)))
        if isinstance(v, Tup): return v.f[i]
        raise Unsupported("field %s of %s" % (i, show(v)))
    def expand(self, v):
        """SymAdt struct -> Adt of its fields"""
        if isinstance(v, SymAdt):
            vs = self.variants(v.ty)
            if len(vs) == 1 and self.types[v.ty]["kind"].lower() == "struct":
                return Adt(v.ty, 0, [self.field(v, i) for i in range(len(vs[0]["fields"]))])
        return v
    def discr_atom(self, v):
        vs = self.variants(v.ty)
        ds = [int(x["discr"]) for x in vs]
        return A(atom("sym", (v.path + ("#",),), min(ds), max(ds)))
    def variant_of(self, v, d):
        for i, x in enumerate(self.variants(v.ty)):
            if int(x["discr"]) == d: return i
        return None

    # ---- control flow ----
    def cfg(self, fid):
        c = self._cfg.get(fid)
        if c is None:
            c = CFG(self.fns[fid]); self._cfg[fid] = c
        return c

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[4]]
    return []

class Loop:
    def __init__(self, header): self.header = header; self.blocks = {header}

class CFG:
    def __init__(self, f):
        bl = f["blocks"]
        self.succ = {}
        seen = []; st = [0]; vis = set()
        # iterative postorder
        order = []
        stack = [(0, iter(self._s(bl, 0)))]; vis.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in vis and bl[s] is not None:
                    vis.add(s); stack.append((s, iter(self._s(bl, s)))); break
            else:
                order.append(b); stack.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        self.succ = {b: [s for s in self._s(bl, b) if s in vis] for b in rpo}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]: pred[s].append(b)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    lp = self.loops.setdefault(s, Loop(s))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in lp.blocks:
                            lp.blocks.add(x); st.extend(pred[x])
                elif num[s] <= num[b]:
                    raise Unsupported("irreducible control flow in " + f["path"])
        self.rpo = rpo
        # liveness of locals whose address is never taken
        self.addr = set()
        use = {}; de = {}
        for b in rpo:
            u = set(); d = set()
            def rd(pl):
                if pl[0] not in d: u.add(pl[0])
                for e in pl[1]:
                    if e[0] == "i" and e[1] not in d: u.add(e[1])
            def op(o):
                if o[0] in ("c", "m"): rd(o[1])
            def wr(pl):
                if pl[1]: rd(pl)
                else: d.add(pl[0])
            for s in bl[b]["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("ref", "rawptr"):
                        if not any(e[0] == "d" for e in rv[1][1]): self.addr.add(rv[1][0])
                        rd(rv[1])
                    elif k == "use" or k == "repeat": op(rv[1])
                    elif k == "cast": op(rv[2])
                    elif k == "bin": op(rv[2]); op(rv[3])
                    elif k == "un": op(rv[2])
                    elif k == "discr": rd(rv[1])
                    elif k == "array": [op(o) for o in rv[2]]
                    elif k in ("tuple", "closure"): [op(o) for o in rv[1]]
                    elif k == "adt": [op(o) for o in rv[2]]
                    elif k == "rawptragg": [op(o) for o in rv[1:] if isinstance(o, list) and o and o[0] in ("c", "m")]
                    wr(s[1])
                elif s[0] == "sd": rd(s[1])
                elif s[0] == "assume": op(s[1])
            t = bl[b]["t"]
            if t[0] == "switch": op(t[1])
            elif t[0] == "call":
                if isinstance(t[1], dict) and "ptr" in t[1]: op(t[1]["ptr"])
                for o in t[2]: op(o)
                wr(t[3])
            elif t[0] == "assert": op(t[1])
            elif t[0] == "drop": rd(t[1])
            elif t[0] == "return": u.add(0) if 0 not in d else None
            use[b] = u; de[b] = d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for s in self.succ[b]: o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]: live[b] = n; ch = True
        self.live = live
    @staticmethod
    def _s(bl, b):
        return [s for s in succs(bl[b]["t"]) if s is not None and bl[s] is not None]
