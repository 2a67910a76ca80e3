"""Abstract values: linear forms over interned atoms, sequences, structured values, conditions."""

INF = float("inf")

class Atom:
    __slots__ = ("kind", "args", "lo", "hi", "id", "_sup")
    tab = {}
    cnt = 0
    def __repr__(self): return show_atom(self)
    def __lt__(self, o): return self.id < o.id

def atom(kind, args, lo=0, hi=INF):
    k = (kind, args)
    a = Atom.tab.get(k)
    if a is None:
        a = Atom(); a.kind = kind; a.args = args; a.lo = lo; a.hi = hi
        Atom.cnt += 1; a.id = Atom.cnt; a._sup = None
        Atom.tab[k] = a
    return a

class Lin:
    __slots__ = ("c", "t", "_h")
    def __init__(self, c, t=()):
        self.c = c; self.t = t; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.c, tuple((a.id, k) for a, k in self.t)))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and len(self.t) == len(o.t) and all(a is b and k == m for (a, k), (b, m) in zip(self.t, o.t))
    def __ne__(self, o): return not self == o
    def __repr__(self): return show(self)
    @property
    def const(self): return self.c if not self.t else None

def K(n): return Lin(n)
ZERO = Lin(0); ONE = Lin(1)
def A(a): return Lin(0, ((a, 1),))

def add(x, y, m=1):
    """x + m*y"""
    if not y.t: return Lin(x.c + m * y.c, x.t)
    if not x.t and m == 1: return Lin(x.c + y.c, y.t)
    d = dict(x.t)
    for a, k in y.t:
        v = d.get(a, 0) + m * k
        if v: d[a] = v
        else: d.pop(a, None)
    return Lin(x.c + m * y.c, tuple(sorted(d.items(), key=lambda p: p[0].id)))
def sub(x, y): return add(x, y, -1)
def scale(x, m):
    if m == 0: return ZERO
    return Lin(x.c * m, tuple((a, k * m) for a, k in x.t))
def mul(x, y):
    if not x.t: return scale(y, x.c)
    if not y.t: return scale(x, y.c)
    # distribute over sums so that products have one canonical form
    r = ZERO
    for (a, k) in x.t + (((None, x.c),) if x.c else ()):
        for (b, m) in y.t + (((None, y.c),) if y.c else ()):
            if a is None and b is None: r = add(r, K(k * m))
            elif a is None: r = add(r, Lin(0, ((b, k * m),)))
            elif b is None: r = add(r, Lin(0, ((a, k * m),)))
            else:
                fs = sorted((list(a.args) if a.kind == "mul" else [a]) + (list(b.args) if b.kind == "mul" else [b]), key=lambda z: z.id)
                lo = hi = 1
                for f in fs:
                    c = [p * q if not (p == 0 or q == 0) else 0 for p in (lo, hi) for q in (f.lo, f.hi)]
                    lo, hi = min(c), max(c)
                r = add(r, Lin(0, ((atom("mul", tuple(fs), lo, hi), k * m),)))
    return r

# ---------- ranges (context free) -----------
def rng(x, iv=None):
    lo = hi = x.c
    # x - d*(x div d) style pairs are exact
    for a, k in x.t:
        l, h = (a.lo, a.hi)
        if iv is not None:
            r = iv.get(a)
            if r is not None: l = max(l, r[0]); h = min(h, r[1])
        if k > 0: lo += k * l; hi += k * h
        else: lo += k * h; hi += k * l
    divs = [(a, k) for a, k in x.t if a.kind == "div"]
    for a, k in divs:
        inner, d = a.args
        # x = r + k*div(inner,d); write as m*(inner - d*div) + rest with m = -k/d
        if k % d == 0 and inner.t:
            m = -k // d
            b, kb = inner.t[0]
            if any(bb is b and kk == m * kb for bb, kk in x.t):
                rest = add(add(x, inner, -m), Lin(0, ((a, m * d),)))
                if len(rest.t) < len(x.t):
                    l2, h2 = rng(rest, iv)
                    if m > 0: l2, h2 = l2, h2 + m * (d - 1)
                    else: l2, h2 = l2 + m * (d - 1), h2
                    lo = max(lo, l2); hi = min(hi, h2)
    return lo, hi

# ---------- bytes, bits, division ----------
def by(buf, pos):
    return A(atom("by", (buf, pos), 0, 255))

def is_pow2(d): return d > 0 and d & (d - 1) == 0

def bits_of(a, iv=None):
    """expand an atom with range [0,2^w-1] into bit atoms; None if not possible"""
    if a.kind in ("bit", "div", "mul", "len") or a.lo < 0 or a.hi == INF: return None
    w = int(a.hi).bit_length()
    if w > 64 or w < 2: return None
    return Lin(0, tuple(sorted(((atom("bit", (a, k), 0, 1), 1 << k) for k in range(w)), key=lambda p: p[0].id)))

def expand_bits(x):
    r = Lin(x.c); ch = False
    for a, k in x.t:
        b = bits_of(a)
        if b is not None: r = add(r, b, k); ch = True
        else: r = add(r, Lin(0, ((a, k),)))
    return r if ch else x

def collapse_bits(x):
    """fold complete runs of bit atoms of one atom back into it (canonical form)"""
    groups = {}
    for a, k in x.t:
        if a.kind == "bit": groups.setdefault(a.args[0], {})[a.args[1]] = k
    for src, ks in groups.items():
        w = int(src.hi).bit_length()
        if len(ks) == w and src.hi == (1 << w) - 1 and 0 in ks and all(ks[i] == ks[0] << i for i in range(w)):
            x = add(add(x, bits_of(src), -ks[0]), A(src), ks[0])
    return x

def split_div(x, d):
    """x = d*q + r with 0<=r<d provable from ranges, or None"""
    q = Lin(0); r = Lin(0)
    for a, k in x.t:
        if k % d == 0: q = add(q, Lin(0, ((a, k // d),)))
        else: r = add(r, Lin(0, ((a, k),)))
    qc, rc = divmod(x.c, d)
    for shift in (0,):
        r2 = add(r, K(rc))
        lo, hi = rng(r2)
        if lo >= 0 and hi < d: return add(q, K(qc)), r2
        if lo >= -d and hi < 0: return add(q, K(qc - 1)), add(r2, K(d))
        # keep the constant in r as a whole
    return None

def fdiv(x, d):
    """floor(x/d) for constant d>0"""
    if d == 1: return x
    if not x.t: return K(x.c // d)
    s = split_div(x, d)
    if s: return s[0]
    if is_pow2(d) and all(a.kind != "div" for a, k in x.t):
        e = expand_bits(x)
        if e is not x:
            s = split_div(e, d)
            if s: return collapse_bits(s[0])
    # pull out multiples of d
    q = ZERO; r = K(x.c % d); q = K(x.c // d)
    for a, k in x.t:
        kq, kr = divmod(k, d)
        if kr * 2 > d and False: pass
        q = add(q, Lin(0, ((a, kq),)) if kq else ZERO)
        if kr: r = add(r, Lin(0, ((a, kr),)))
    # floor((a + floor(b/e)) / d) = floor((a*e + b) / (d*e))
    dv = [a for a, k in r.t if a.kind == "div" and k == 1]
    if len(dv) == 1:
        inner, dd = dv[0].args
        rest = Lin(r.c * dd, tuple((a, k * dd) for a, k in r.t if a is not dv[0]))
        return add(q, fdiv(add(rest, inner), dd * d))
    from math import gcd
    g = d
    for a, k in r.t: g = gcd(g, k)
    if g > 1:
        r = Lin(r.c // g, tuple((a, k // g) for a, k in r.t)); d2 = d // g
        if d2 == 1: return add(q, r)
        return add(q, fdiv(r, d2))
    lo, hi = rng(r)
    a = atom("div", (r, d), lo // d if lo != -INF else -INF, hi // d if hi != INF else INF)
    return add(q, A(a))

def fmod(x, d):
    if not x.t: return K(x.c % d)
    s = split_div(x, d)
    if s: return s[1]
    if is_pow2(d) and all(a.kind != "div" for a, k in x.t):
        e = expand_bits(x)
        if e is not x:
            s = split_div(e, d)
            if s: return collapse_bits(s[1])
    return sub(x, scale(fdiv(x, d), d))

def lin_zero(x):
    """is x identically zero (after expanding bits where needed)?"""
    if not x.t: return x.c == 0
    if any(a.kind == "bit" for a, k in x.t):
        srcs = {a.args[0] for a, k in x.t if a.kind == "bit"}
        r = Lin(x.c)
        for a, k in x.t:
            if a in srcs: r = add(r, bits_of(a), k)
            else: r = add(r, Lin(0, ((a, k),)))
        return not r.t and r.c == 0
    return False

# ---------- conditions ----------
# ("ge",L) L>=0 ; ("eq",L) ; ("ne",L) ; ("b",name,args) ; ("nb",name,args) ; True/False
def ge(x, y=ZERO):
    d = sub(x, y)
    lo, hi = rng(d)
    if lo >= 0: return True
    if hi < 0: return False
    return ("ge", norm_ge(d))
def norm_ge(d):
    from math import gcd
    g = 0
    for a, k in d.t: g = gcd(g, abs(k))
    if g > 1: d = Lin(d.c // g, tuple((a, k // g) for a, k in d.t))
    return d
def gt(x, y): return ge(x, add(y, ONE))
def lt(x, y): return gt(y, x)
def le(x, y): return ge(y, x)
def eq(x, y=ZERO):
    d = sub(x, y)
    if not d.t: return d.c == 0
    lo, hi = rng(d)
    if lo > 0 or hi < 0: return False
    if d.t[0][1] < 0: d = scale(d, -1)
    from math import gcd
    g = 0
    for a, k in d.t: g = gcd(g, abs(k))
    if g > 1:
        if d.c % g: return False
        d = Lin(d.c // g, tuple((a, k // g) for a, k in d.t))
    if len(d.t) == 1 and d.t[0][0].kind == "bit" and False: pass
    return ("eq", d)
def ne(x, y=ZERO): return neg(eq(x, y))
def neg(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == "ge": return ("ge", sub(scale(c[1], -1), ONE))
    if k == "eq": return ("ne", c[1])
    if k == "ne": return ("eq", c[1])
    if k == "b": return ("nb", c[1], c[2])
    if k == "nb": return ("b", c[1], c[2])
    raise Exception(c)
def B(name, *args): return ("b", name, tuple(args))

# ---------- structured values ----------
class V:
    __slots__ = ()
class Adt(V):
    __slots__ = ("ty", "var", "f", "_h")
    def __init__(self, ty, var, f): self.ty = ty; self.var = var; self.f = tuple(f); self._h = None
    def __eq__(self, o): return self is o or (isinstance(o, Adt) and self.ty == o.ty and self.var == o.var and self.f == o.f)
    def __ne__(self, o): return not self == o
    def __hash__(self):
        if self._h is None: self._h = hash((self.ty, self.var, self.f))
        return self._h
    def __repr__(self): return show(self)
class SymAdt(V):
    """lazily expanded symbolic struct/enum named by a path"""
    __slots__ = ("ty", "path")
    def __init__(self, ty, path): self.ty = ty; self.path = path
    def __eq__(self, o): return isinstance(o, SymAdt) and self.ty == o.ty and self.path == o.path
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.ty, self.path))
    def __repr__(self): return show(self)
class Tup(V):
    __slots__ = ("f",)
    def __init__(self, f): self.f = tuple(f)
    def __eq__(self, o): return isinstance(o, Tup) and self.f == o.f
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("tup", self.f))
    def __repr__(self): return show(self)
UNIT = Tup(())
class RefV(V):
    """shared reference: snapshot of the referent"""
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, RefV) and self.v == o.v
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("ref", self.v))
    def __repr__(self): return show(self)
class MutRef(V):
    __slots__ = ("cell", "proj")
    def __init__(self, cell, proj=()): self.cell = cell; self.proj = tuple(proj)
    def __eq__(self, o): return isinstance(o, MutRef) and self.cell == o.cell and self.proj == o.proj
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("mref", self.cell, self.proj))
    def __repr__(self): return show(self)
class Seq(V):
    __slots__ = ("s", "_h")
    def __init__(self, s=()): self.s = tuple(s); self._h = None
    def __eq__(self, o): return self is o or (isinstance(o, Seq) and self.s == o.s)
    def __ne__(self, o): return not self == o
    def __hash__(self):
        if self._h is None: self._h = hash(self.s)
        return self._h
    def __repr__(self): return show(self)
class Clos(V):
    __slots__ = ("inst", "ups")
    def __init__(self, inst, ups): self.inst = inst; self.ups = tuple(ups)
    def __eq__(self, o): return isinstance(o, Clos) and self.inst == o.inst and self.ups == o.ups
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("clos", self.inst, self.ups))
    def __repr__(self): return "clos%d" % self.inst
class FnDef(V):
    __slots__ = ("c", "key")
    def __init__(self, c): self.c = c; self.key = (c.get("path"), c.get("inst"), c.get("variant"))
    def __eq__(self, o): return isinstance(o, FnDef) and self.key == o.key
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.key)
    def __repr__(self): return "fn:" + str(self.key[0])
class Op(V):
    """opaque value: (name, args)"""
    __slots__ = ("n", "a", "_h")
    def __init__(self, n, *a): self.n = n; self.a = tuple(a); self._h = None
    def __eq__(self, o): return self is o or (isinstance(o, Op) and self.n == o.n and self.a == o.a)
    def __ne__(self, o): return not self == o
    def __hash__(self):
        if self._h is None: self._h = hash((self.n, self.a))
        return self._h
    def __repr__(self): return show(self)
class Bo(V):
    """boolean value given by a condition"""
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __eq__(self, o): return isinstance(o, Bo) and self.c == o.c
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("bo", self.c))
    def __repr__(self): return show(self)
TRUE = Bo(True); FALSE = Bo(False)
def mkbo(c): return TRUE if c is True else FALSE if c is False else Bo(c)
class Uninit(V):
    def __repr__(self): return "uninit"
UNINIT = Uninit()

# ---------- substitution ----------
def support(x):
    """set of atoms occurring anywhere in a term"""
    if isinstance(x, Lin):
        r = set()
        for a, k in x.t: r |= asup(a)
        return r
    if isinstance(x, Atom): return asup(x)
    if isinstance(x, tuple):
        r = set()
        for e in x: r |= support(e)
        return r
    if isinstance(x, Adt): return support(x.f)
    if isinstance(x, Tup): return support(x.f)
    if isinstance(x, RefV): return support(x.v)
    if isinstance(x, Seq): return support(x.s)
    if isinstance(x, Bo): return support(x.c)
    if isinstance(x, Op): return support(x.a)
    if isinstance(x, SymAdt): return support(x.path)
    if isinstance(x, MutRef): return support(x.proj)
    if isinstance(x, Clos): return support(x.ups)
    return frozenset()
def asup(a):
    if a._sup is None:
        a._sup = frozenset({a}) | frozenset(support(a.args))
    return a._sup

def subst(x, m):
    """m: dict atom -> Lin.  Rebuilds through the canonicalising constructors."""
    if not m: return x
    return _subst(x, m, {})
def _subst(x, m, memo):
    if isinstance(x, Lin):
        if not x.t: return x
        ch = False; r = Lin(x.c)
        for a, k in x.t:
            n = _subst_atom(a, m, memo)
            if n is None: r = add(r, Lin(0, ((a, k),)))
            else: r = add(r, n, k); ch = True
        return r if ch else x
    if isinstance(x, tuple):
        if x and x[0] in ("ge", "eq", "ne") and len(x) == 2 and isinstance(x[1], Lin):
            n = _subst(x[1], m, memo)
            if n is x[1] or n == x[1]: return x
            return {"ge": ge, "eq": eq, "ne": ne}[x[0]](n)
        if x and x[0] in ("b", "nb") and len(x) == 3:
            n = _subst(x[2], m, memo)
            if n == x[2]: return x
            c = rebuild_bool(x[1], n)
            return c if x[0] == "b" else neg(c)
        r = tuple(_subst(e, m, memo) for e in x)
        return x if all(p is q for p, q in zip(r, x)) else r
    if isinstance(x, Atom):
        n = _subst_atom(x, m, memo)
        return x if n is None else n
    if not isinstance(x, V): return x
    if isinstance(x, Adt):
        f = _subst(x.f, m, memo); return x if f is x.f else Adt(x.ty, x.var, f)
    if isinstance(x, Tup):
        f = _subst(x.f, m, memo); return x if f is x.f else Tup(f)
    if isinstance(x, RefV):
        f = _subst(x.v, m, memo); return x if f is x.v else RefV(f)
    if isinstance(x, Seq):
        f = _subst(x.s, m, memo)
        if f is x.s: return x
        return rebuild_seq(f)
    if isinstance(x, Bo):
        f = _subst(x.c, m, memo); return x if f is x.c else mkbo(f)
    if isinstance(x, Op):
        f = _subst(x.a, m, memo); return x if f is x.a else Op(x.n, *f)
    if isinstance(x, SymAdt):
        f = _subst(x.path, m, memo); return x if f is x.path else SymAdt(x.ty, f)
    if isinstance(x, MutRef):
        f = _subst(x.proj, m, memo); return x if f is x.proj else MutRef(x.cell, f)
    if isinstance(x, Clos):
        f = _subst(x.ups, m, memo); return x if f is x.ups else Clos(x.inst, f)
    return x
def _subst_atom(a, m, memo):
    if a in m: return m[a]
    if a in memo: return memo[a]
    if not (asup(a) & m.keys()):
        memo[a] = None; return None
    args = _subst(a.args, m, memo)
    r = rebuild_atom(a, args)
    memo[a] = r
    return r

REBUILD = {}
def lin_key(x): return (x.c, tuple((a.id, k) for a, k in x.t))
def commut(op, a, b, lo, hi):
    """bitwise operation on two unknowns, in one canonical form"""
    for x, y in ((a, b), (b, a)):
        if x.const == 0: return ZERO if op == "BitAnd" else y
        if x.const == hi and lo == 0: return y if op == "BitAnd" else K(hi) if op == "BitOr" else sub(K(hi), y)
    if a.const is not None and b.const is not None: return K(a.const & b.const if op == "BitAnd" else a.const | b.const if op == "BitOr" else a.const ^ b.const)
    if a == b: return ZERO if op == "BitXor" else a
    x, y = (a, b) if lin_key(a) <= lin_key(b) else (b, a)
    return A(atom("app", (op, (x, y)), lo, hi))
def _rb_app(a, args):
    if args[0] in ("BitXor", "BitOr", "BitAnd"):
        x, y = args[1]
        if x.const is not None or y.const is not None or x == y or lin_key(x) > lin_key(y): return commut(args[0], x, y, a.lo, a.hi)
    return None
REBUILD["app"] = _rb_app
def rebuild_atom(a, args):
    k = a.kind
    if k == "div": return fdiv(args[0], args[1])
    if k == "mul":
        r = ONE
        for f in args: r = mul(r, f if isinstance(f, Lin) else A(f))
        return r
    if k == "bit":
        x, i = args
        if isinstance(x, Lin): return fmod(fdiv(x, 1 << i), 2)
        return A(atom("bit", args, 0, 1))
    f = REBUILD.get(k)
    if f is not None:
        r = f(a, args)
        if r is not None: return r
    return A(atom(k, args, a.lo, a.hi))
REBUILD_BOOL = {}
def rebuild_bool(name, args):
    f = REBUILD_BOOL.get(name)
    if f is not None:
        r = f(args)
        if r is not None: return r
    return ("b", name, args)
def rebuild_seq(segs):
    from seqs import mkseq
    return mkseq(segs)

# ---------- printing ----------
def show(x, d=0):
    if isinstance(x, Lin):
        if not x.t: return str(x.c)
        p = []
        for a, k in x.t[:12]: p.append(("" if k == 1 else "-" if k == -1 else str(k) + "*") + show_atom(a))
        if len(x.t) > 12: p.append("...")
        if x.c: p.append(str(x.c))
        return "+".join(p).replace("+-", "-")
    if isinstance(x, Adt): return "%s#%s%s" % (tyname(x.ty), x.var, "(" + ",".join(show(f) for f in x.f) + ")" if x.f else "")
    if isinstance(x, SymAdt): return "sym<%s>%s" % (tyname(x.ty), path_s(x.path))
    if isinstance(x, Tup): return "(" + ",".join(show(f) for f in x.f) + ")"
    if isinstance(x, RefV): return "&" + show(x.v)
    if isinstance(x, MutRef): return "&mut %s%s" % (x.cell, list(x.proj) if x.proj else "")
    if isinstance(x, Seq): return "[" + " ++ ".join(show_seg(s) for s in x.s) + "]"
    if isinstance(x, Bo): return show_c(x.c)
    if isinstance(x, Op): return "%s(%s)" % (x.n, ",".join(show(a) for a in x.a))
    if isinstance(x, tuple): return "(" + ",".join(show(e) for e in x) + ")"
    return repr(x)
def path_s(p):
    return ".".join(show(e) if not isinstance(e, str) else e for e in p) if isinstance(p, tuple) else str(p)
def show_atom(a):
    if a.kind == "by": return "%s[%s]" % (path_s(a.args[0]), show(a.args[1]))
    if a.kind == "sym": return path_s(a.args[0])
    if a.kind == "div": return "(%s)/%d" % (show(a.args[0]), a.args[1])
    if a.kind == "bit": return "%s:%d" % (show_atom(a.args[0]), a.args[1])
    if a.kind == "mul": return "*".join(show_atom(f) for f in a.args)
    return "%s(%s)" % (a.kind, ",".join(show(e) if not isinstance(e, (str, Atom)) else str(e) for e in a.args))
def show_seg(s):
    if s[0] == "in": return "%s[%s..+%s]" % (path_s(s[1]), show(s[2]), show(s[3]))
    if s[0] == "k":
        try: return repr(s[1].decode())
        except Exception: return s[1].hex()
    if s[0] == "el": return "<%s>" % show(s[1])
    if s[0] == "gen": return "gen(%s<%s:%s)" % (s[2], show(s[1]), show(s[3]))
    return "%s(%s)" % (s[0], ",".join(show(e) for e in s[1:]))
def show_c(c):
    if c is True or c is False: return str(c)
    if c[0] == "ge": return show(c[1]) + ">=0"
    if c[0] == "eq": return show(c[1]) + "==0"
    if c[0] == "ne": return show(c[1]) + "!=0"
    return ("" if c[0] == "b" else "!") + c[1] + "(" + ",".join(show(e) for e in c[2]) + ")"
TYPES = None
def tyname(t):
    if TYPES is None or not isinstance(t, int): return str(t)
    s = TYPES[t].get("s", str(t))
    return s.split("<")[0].split("::")[-1]
