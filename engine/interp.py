"""Abstract interpreter over the extracted MIR (trace partitioning, loop summaries)."""
import sys, re
import time
from terms import *
import terms, seqs
from seqs import slen, els, const_seq, cat, mkseq
from dom import Ctx
from model import Program, Unsupported
sys.setrecursionlimit(20000)

class Budget(Exception): pass

class State:
    __slots__ = ("cells", "ctx", "log", "notes")
    def __init__(self):
        self.cells = {}; self.ctx = Ctx(); self.log = (); self.notes = ()
    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells); s.ctx = self.ctx; s.log = self.log; s.notes = self.notes
        return s
    def assume(self, c):
        """fork with an extra fact; None if contradictory"""
        n = self.ctx.assume(c)
        if n is None: return None
        if n is self.ctx: return self
        s = self.fork(); s.ctx = n
        return s
    def split(self, c):
        """(state where c holds | None, state where it does not | None)"""
        d = self.ctx.normc(c)
        if d is True: return self, None
        if d is False: return None, self
        t = self.assume(d); f = self.assume(neg(d))
        return t, f
    def emit(self, *ev):
        self.log = self.log + (ev,)

def memory_size(c):
    """does c say that a count of things held in memory fits 64 bits"""
    if not (isinstance(c, tuple) and c[0] == "ge" and isinstance(c[1], Lin)): return False
    x = c[1]
    return x.c >= 1 << 56 and all(a.kind == "len" and -64 <= k < 0 or a.kind == "lv" and k == -1 for a, k in x.t)
class Panic:
    def __init__(self, site, kind, st, msg=""):
        self.site = site; self.kind = kind; self.st = st; self.msg = msg; self.lits = st.ctx.lits

import dom
DEADLINE = [None]
def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise Budget()
dom.TICK[0] = tick
class Interp:
    def __init__(self, prog):
        self.P = prog
        self.fid = 0
        self.panics = []
        self.allocs = []
        self.loops = []          # loop summaries of final passes
        self.unsup = []
        self.quiet = 0
        self.stack = []
        self.steps = 0
        self.max_steps = 3000000
        self.concrete_states = 16
        self.concrete = None     # execute loops over inputs of this many elements one by one
        self.unroll = None       # bounded number of repetitions instead of loop summaries
        self.analysed = set()
        self.stubs = {}          # path -> python callable replacing a local function
        self.celltype = {}
        self.focus = set()
        self.nloop = 0
        self.ncell = 0
        self.mergers = {}
        import natives, loops, nat_io, nat_iter, nat_misc, nat_text
        self.nat = natives.Natives(self)
        self.lp = loops.Loops(self)

    # ---------- cells / places ----------
    def newcell(self, st, v, ty=None):
        self.ncell += 1
        k = ("n", self.ncell)
        st.cells[k] = v
        if ty is not None: self.celltype[k] = ty
        return k
    def read(self, st, cell, proj):
        if cell[0] == "static" and cell not in st.cells: st.cells[cell] = self.P.mksym(self.celltype[cell], cell)
        v = st.cells[cell]
        for p in proj: v = self.proj(st, v, p)
        return v
    def proj(self, st, v, p):
        k = p[0]
        if k == "f":
            var = p[2] if len(p) > 2 else None
            return self.P.field(v, p[1], var)
        if k == "a": return v.a[p[1]]
        if k == "ix":
            ety = p[2] if len(p) > 2 else None
            return seqs.index(self.asseq(v), p[1], st.ctx, ety)
        if k == "sub":
            return seqs.slice_(self.asseq(v), p[1], p[2], st.ctx)
        if k == "up": return v.ups[p[1]]
        if k == "mapval":
            return self.nat.map_lookup_known(v, p[1])
        raise Unsupported("projection %s" % (p,))
    def asseq(self, v):
        if isinstance(v, Seq): return v
        if isinstance(v, RefV): return self.asseq(v.v)
        raise Unsupported("sequence expected, got " + show(v)[:80])
    def store(self, st, cell, proj, v):
        if not proj: st.cells[cell] = v
        elif cell[0] == "static": self.read(st, cell, ()); st.cells[cell] = self._upd(st, st.cells[cell], proj, 0, v)
        else: st.cells[cell] = self._upd(st, st.cells[cell], proj, 0, v)
    def _upd(self, st, o, proj, i, v):
        if i == len(proj): return v
        p = proj[i]; k = p[0]
        if k == "f":
            if isinstance(o, SymAdt):
                o = self.expand(o, p[2] if len(p) > 2 else None)
            if isinstance(o, Adt):
                f = list(o.f); f[p[1]] = self._upd(st, f[p[1]], proj, i + 1, v)
                return Adt(o.ty, o.var, f)
            if isinstance(o, Tup):
                f = list(o.f); f[p[1]] = self._upd(st, f[p[1]], proj, i + 1, v)
                return Tup(f)
        if k == "a" and isinstance(o, Op):
            a = list(o.a); a[p[1]] = self._upd(st, a[p[1]], proj, i + 1, v)
            return Op(o.n, *a)
        if k == "up" and isinstance(o, Clos):
            a = list(o.ups); a[p[1]] = self._upd(st, a[p[1]], proj, i + 1, v)
            return Clos(o.inst, a)
        if k == "ix":
            q = self.asseq(o)
            if i + 1 == len(proj): nv = v
            else: nv = self._upd(st, seqs.index(q, p[1], st.ctx, p[2] if len(p) > 2 else None), proj, i + 1, v)
            return seqs.update(q, p[1], nv, st.ctx)
        if k == "sub":
            q = self.asseq(o)
            nv = self._upd(st, seqs.slice_(q, p[1], p[2], st.ctx), proj, i + 1, v)
            return seqs.splice(q, p[1], p[2], nv, st.ctx)
        if k == "mapval":
            return self.nat.map_store_known(st, o, p[1], self._upd(st, self.nat.map_lookup_known(o, p[1]), proj, i + 1, v))
        raise Unsupported("store through %s into %s" % (p, show(o)[:60]))
    def expand(self, o, var=None):
        if isinstance(o, SymAdt):
            vs = self.P.variants(o.ty)
            vi = var or 0
            return Adt(o.ty, vi, [self.P.field(o, i, vi) for i in range(len(vs[vi]["fields"]))])
        return o
    # resolve a MIR place to ("m", cell, proj) or ("v", value)
    def place(self, st, fr, pl):
        cell = (fr, pl[0]); proj = []
        cur = None     # by-value mode when not None
        var = None
        fn = self.frames[fr]
        T = fn["locals"][pl[0]][0]
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = cur if cur is not None else self.read(st, cell, proj)
                if isinstance(v, RefV): cur = v.v
                elif isinstance(v, MutRef):
                    cell = v.cell; proj = list(v.proj); cur = None
                elif isinstance(v, Seq): cur = v
                elif isinstance(v, Op) and v.n == "box":
                    if cur is not None: cur = v.a[0]
                    else: proj.append(("a", 0))
                else: raise Unsupported("deref of " + show(v)[:80])
                var = None
            elif k == "f":
                if cur is not None:
                    cur = cur.ups[e[1]] if isinstance(cur, Clos) else self.P.field(cur, e[1], var)
                else:
                    base = self.read(st, cell, proj)
                    if isinstance(base, Clos): proj.append(("up", e[1]))
                    else: proj.append(("f", e[1], var) if var is not None else ("f", e[1]))
                var = None
            elif k == "dc": var = e[1]
            elif k == "i" or k == "ci":
                if k == "i": idx = self.local(st, fr, e[1])
                else:
                    idx = K(e[1])
                    if e[3]:
                        q = cur if cur is not None else self.read(st, cell, proj)
                        idx = sub(slen(self.asseq(q)), K(e[1]))
                if cur is not None: cur = seqs.index(self.asseq(cur), idx, st.ctx, None)
                else: proj.append(("ix", idx))
            elif k == "sub":
                q = cur if cur is not None else self.read(st, cell, proj)
                n = slen(self.asseq(q))
                to = sub(n, K(e[2])) if e[3] else K(e[2])
                if cur is not None: cur = seqs.slice_(self.asseq(cur), K(e[1]), sub(to, K(e[1])), st.ctx)
                else: proj.append(("sub", K(e[1]), sub(to, K(e[1]))))
            else: raise Unsupported("place element %s" % k)
        if cur is not None: return ("v", cur, var)
        return ("m", cell, proj)
    def local(self, st, fr, l):
        return st.cells[(fr, l)]
    def rplace(self, st, fr, pl):
        r = self.place(st, fr, pl)
        if r[0] == "v": return r[1]
        v = self.read(st, r[1], r[2])
        return v
    def wplace(self, st, fr, pl, v):
        if not pl[1]: st.cells[(fr, pl[0])] = v; return
        r = self.place(st, fr, pl)
        if r[0] == "v": raise Unsupported("write through a shared reference")
        self.store(st, r[1], r[2], v)
    # ---------- operands ----------
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            return self.rplace(st, fr, o[1])
        if k == "k": return self.const(o[1], o[2])
        if k == "rt": return mkbo(True)
        raise Unsupported("operand " + str(o)[:60])
    def const(self, ty, c):
        k = c[0]
        T = self.P.types[ty] if ty is not None else {"k": "?"}
        if k == "int":
            n = int(c[1])
            if T["k"] == "bool": return mkbo(n != 0)
            if T["k"] == "float": return Op("fconst", n)
            return K(n)
        if k == "bytes": return const_seq(bytes.fromhex(c[1]))
        if k == "zst":
            if T["k"] == "fndef": return FnDef(T["callee"])
            if T["k"] == "closure": return Clos(T["inst"], ())
            if T["k"] == "tuple": return UNIT
            if T["k"] == "array": return Seq(())
            if T["k"] == "adt": return Adt(ty, 0, ()) 
            return UNIT
        if k == "adt" and ty is None: return Op("const", str(c[1:]))
        if k == "adt":
            vs = self.P.types[ty].get("variants")
            fs = []
            for i, f in enumerate(c[2]):
                ft = vs[c[1]]["fields"][i][1] if vs else None
                fs.append(self.const(ft, f))
            if T.get("path", "").endswith("Vec") or T.get("path", "").endswith("String"): return Seq(())
            if T.get("path") == "core::time::Duration":
                return self.nat.duration_const(c)
            return Adt(ty, c[1], fs)
        if k == "arr": 
            et = T.get("t")
            return els([self.const(et, e) for e in c[1]])
        if k == "tup":
            ts = T.get("ts") or [None] * len(c[1])
            return Tup([self.const(ts[i], e) for i, e in enumerate(c[1])])
        if k == "ref":
            return RefV(self.const(T.get("t"), c[1]))
        if k == "opaque": 
            if T.get("path") == "core::time::Duration": return self.nat.duration_const(c)
            return Op("const", str(c[1:]))
        if k == "static":
            # state shared by the whole process: its value is not known
            if ty is None or T.get("t") is None: return Op("static", c[1])
            cell = ("static", c[1]); self.celltype[cell] = T["t"]
            return MutRef(cell)
        raise Unsupported("constant " + str(c)[:80])
    # ---------- rvalues ----------
    def wrap(self, x, ty):
        """reduce an integer to the range of a machine type"""
        lo, hi = self.P.intrange(ty)
        l, h = rng(x)
        if l >= lo and h <= hi: return x
        n = hi - lo + 1
        m = fmod(sub(x, K(lo)), n) if lo else fmod(x, n)
        return add(m, K(lo))
    def cast(self, st, kind, v, ty, fromty):
        T = self.P.types[ty]
        if kind == "IntToInt":
            if isinstance(v, Bo):
                return self.bool_int(v)
            if isinstance(v, (Adt, SymAdt)):
                return self.discr(v)
            return self.wrapc(st, v, ty)
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            if T["k"] == "int": 
                lo, hi = self.P.intrange(ty)
                return A(atom("app", ("f2i", (v, ty)), lo, hi))
            return Op(kind, v, ty)
        if kind in ("Transmute", "PtrToPtr"): return v
        raise Unsupported("cast " + kind)
    def wrapc(self, st, x, ty):
        lo, hi = self.P.intrange(ty)
        l, h = rng(x)
        if l >= lo and h <= hi: return x
        y = st.ctx.norm(x)
        l, h = rng(y, st.ctx.iv)
        if l >= lo and h <= hi: return x
        if st.ctx.entails(ge(x, K(lo))) and st.ctx.entails(ge(K(hi), x)): return x
        return self.wrap(x, ty)
    def bool_int(self, v):
        if v.c is True: return ONE
        if v.c is False: return ZERO
        c = v.c
        if c[0] in ("eq", "ne") and len(c[1].t) == 1:
            a, k = c[1].t[0]
            if a.lo == 0 and a.hi == 1 and abs(k) == 1 and c[1].c in (0, -k):
                one = (c[1].c == -k)          # atom == 1
                if c[0] == "ne": one = not one
                return A(a) if one else sub(ONE, A(a))
        return A(atom("b2i", (c,), 0, 1))
    def discr(self, v):
        if isinstance(v, Adt):
            T = self.P.types[v.ty]
            vs = T.get("variants")
            return K(int(vs[v.var]["discr"]) if vs else v.var)
        if isinstance(v, SymAdt): return self.P.discr_atom(v)
        if isinstance(v, Op):
            return self.nat.discr(v)
        raise Unsupported("discriminant of " + show(v)[:60])
    def binop(self, st, fr, op, a, b, ty, opty):
        """returns value, or list of (value,state)"""
        if isinstance(a, Bo) or isinstance(b, Bo):
            return self.boolop(st, op, a, b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if isinstance(a, Op) or isinstance(b, Op):
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return Bo(B(op, a, b))
                return Op(op, a, b)
            raise Unsupported("binary %s on %s, %s" % (op, show(a)[:40], show(b)[:40]))
        if op == "Eq": return mkbo(eq(a, b))
        if op == "Ne": return mkbo(ne(a, b))
        if op == "Lt": return mkbo(lt(a, b))
        if op == "Le": return mkbo(le(a, b))
        if op == "Gt": return mkbo(gt(a, b))
        if op == "Ge": return mkbo(ge(a, b))
        if op == "Cmp":
            return Op("cmp", a, b)
        if op.endswith("WithOverflow"):
            r = self.arith(st, op[:-12], a, b)
            ity = self.P.types[ty]["ts"][0]
            lo, hi = self.P.intrange(ity)
            ov = self.outside(st, r, lo, hi)
            return Tup((r, mkbo(ov) if not isinstance(ov, list) else Bo(("b", "outside", (r, lo, hi)))))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            r = self.arith(st, op.replace("Unchecked", ""), a, b)
            return r if op.endswith("Unchecked") else self.wrapc(st, r, ty)
        if op in ("Div", "Rem"):
            return self.divrem(st, op, a, b, ty)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            return self.shift(st, op[:3], a, b, ty)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, a, b, ty)
        raise Unsupported("binop " + op)
    def outside(self, st, r, lo, hi):
        l, h = rng(r)
        cs = []
        if l < lo: cs.append(lt(r, K(lo)))
        if h > hi: cs.append(gt(r, K(hi)))
        cs = [c for c in cs if c is not False]
        cs = [c for c in (st.ctx.normc(c) if c is not True else True for c in cs) if c is not False]
        if not cs: return False
        if True in cs: return True
        if len(cs) == 1: return cs[0]
        if st.ctx.entails(neg(cs[0])): return cs[1]
        if st.ctx.entails(neg(cs[1])): return cs[0]
        return cs
    def arith(self, st, op, a, b):
        if op == "Add": return add(a, b)
        if op == "Sub": return sub(a, b)
        if op == "Mul":
            a2, b2 = a, b
            if st is not None:
                if a.t and st.ctx.norm(a).const is not None: a2 = st.ctx.norm(a)
                if b.t and st.ctx.norm(b).const is not None: b2 = st.ctx.norm(b)
            return mul(a2, b2)
        raise Unsupported(op)
    def divrem(self, st, op, a, b, ty):
        bc = st.ctx.norm(b).const
        ac = st.ctx.norm(a)
        if ac.const is not None: a = ac
        lo, hi = rng(st.ctx.norm(a), st.ctx.iv)
        if bc is not None and bc > 0 and (lo >= 0 or st.ctx.entails(ge(a))):
            return fdiv(a, bc) if op == "Div" else fmod(a, bc)
        if bc is not None and a.const is not None and bc != 0:
            q = abs(a.const) // abs(bc) * (1 if (a.const < 0) == (bc < 0) else -1)
            return K(q) if op == "Div" else K(a.const - q * bc)
        l2, h2 = self.P.intrange(ty)
        if a.const == 0: return ZERO
        if op == "Rem":
            L, H = rng(b)
            if lo >= 0 and st.ctx.entails(ge(b, ONE)):
                # the remainder is below the divisor
                r = A(atom("rem", (a, b), 0, H - 1 if H != INF else h2))
                c = st.ctx.assume(gt(b, r))
                if c is not None: st.ctx = c
                return r
            return A(atom("rem", (a, b), 0 if lo >= 0 else l2, H - 1 if H != INF else h2))
        return A(atom("quo", (a, b), 0 if lo >= 0 else l2, hi if lo >= 0 else h2))
    def shift(self, st, op, a, b, ty):
        lo, hi = self.P.intrange(ty)
        bits = (hi - lo + 1).bit_length() - 1
        bc = st.ctx.norm(b).const
        if bc is None:
            ac = st.ctx.norm(a)
            return A(atom("shl" if op == "Shl" else "shr", (ac if ac.const is not None else a, b), lo, hi))
        bc %= bits
        if op == "Shl": return self.wrap(scale(a, 1 << bc), ty)
        return fdiv(a, 1 << bc)
    def bitop(self, st, op, a, b, ty):
        lo, hi = self.P.intrange(ty)
        for x, y in ((a, b), (b, a)):
            yc = st.ctx.norm(y).const
            if yc is not None:
                xc = st.ctx.norm(x).const
                if xc is not None:
                    r = xc & yc if op == "BitAnd" else xc | yc if op == "BitOr" else xc ^ yc
                    return K(r)
                if yc < 0: yc &= (hi - lo)
                if lo < 0 and not st.ctx.entails(ge(x)): break
                return self.bitconst(op, x, yc, hi)
        sh = self.bit_by_shift(st, op, a, b)
        if sh is not None: return sh
        if op == "BitOr" or op == "BitXor":
            # disjoint bits add up
            if disjoint(a, b): return add(a, b)
        if op == "BitXor" or op == "BitOr" or op == "BitAnd":
            return commut(op, a, b, 0 if lo == 0 else lo, hi)
    def bit_by_shift(self, st, op, a, b):
        """x & (1 << s) with a symbolic s: the s-th bit"""
        return None
    def bitconst(self, op, x, c, hi):
        if op == "BitAnd":
            r = ZERO; i = 0
            while c >> i:
                if (c >> i) & 1:
                    j = i
                    while (c >> j) & 1: j += 1
                    part = fmod(fdiv(x, 1 << i), 1 << (j - i))
                    r = add(r, scale(part, 1 << i)); i = j
                else: i += 1
            return collapse_bits(r)
        if op == "BitOr":
            return collapse_bits(add(sub(x, self.bitconst("BitAnd", x, c, hi)), K(c)))
        if op == "BitXor":
            if c and c & (c + 1) == 0:
                lo, h = rng(x)
                if lo >= 0 and h <= c or hi == c and c >= 255: return sub(K(c), x)      # every bit flipped
            # x ^ c = x - (x&c) + (c - (x&c))
            a = self.bitconst("BitAnd", x, c, hi)
            return collapse_bits(add(sub(x, scale(a, 2)), K(c)))
    def boolop(self, st, op, a, b):
        a2 = a.c if isinstance(a, Bo) else None; b2 = b.c if isinstance(b, Bo) else None
        if a2 is None or b2 is None: raise Unsupported("boolean operator")
        a2 = st.ctx.normc(a2); b2 = st.ctx.normc(b2)
        if op in ("Eq", "Ne", "BitXor"):
            for x, y in ((a2, b2), (b2, a2)):
                if x is True: return mkbo(y) if op == "Eq" else mkbo(neg(y))
                if x is False: return mkbo(neg(y)) if op == "Eq" else mkbo(y)
            if a2 == b2: return mkbo(op == "Eq")
            return Bo(("b" if op == "Eq" else "nb", "booleq", (a2, b2)))
        if op == "BitAnd":
            if a2 is False or b2 is False: return FALSE
            if a2 is True: return mkbo(b2)
            if b2 is True: return mkbo(a2)
            return Bo(("b", "and", (a2, b2)))
        if op == "BitOr":
            if a2 is True or b2 is True: return TRUE
            if a2 is False: return mkbo(b2)
            if b2 is False: return mkbo(a2)
            return Bo(("nb", "and", (neg(a2), neg(b2))))
        raise Unsupported("bool " + op)
    def rvalue(self, st, fr, rv, ty, pl):
        k = rv[0]
        if k == "use": return self.operand(st, fr, rv[1])
        if k == "ref":
            r = self.place(st, fr, rv[1])
            if rv[2]:
                if r[0] == "v": raise Unsupported("&mut of a by-value place")
                return MutRef(r[1], r[2])
            if r[0] == "v": return RefV(r[1])
            v = self.read(st, r[1], r[2])
            return RefV(v)
        if k == "bin":
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            oty = self.opty(fr, rv[2])
            return self.binop(st, fr, rv[1], a, b, oty if rv[1] in ("Shl", "Shr", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Add", "Sub", "Mul") and oty is not None else ty, oty)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if isinstance(a, Bo): return mkbo(neg(a.c))
                lo, hi = self.P.intrange(ty)
                return sub(K(hi), a) if lo == 0 else sub(K(-1), a)
            if rv[1] == "Neg": return scale(a, -1) if isinstance(a, Lin) else Op("Neg", a)
            if rv[1] == "PtrMetadata":
                return self.seqlen(st, a)
            raise Unsupported("unop " + rv[1])
        if k == "discr":
            return self.discr(self.rplace(st, fr, rv[1]))
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], None)
        if k == "adt":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            return Adt(ty, rv[1], ops)
        if k == "tuple": return Tup([self.operand(st, fr, o) for o in rv[1]]) if rv[1] else UNIT
        if k == "array": return els([self.operand(st, fr, o) for o in rv[2]])
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            return mkseq([("rep", v, K(int(rv[2])))])
        if k == "closure":
            T = self.P.types[ty]
            return Clos(T["inst"], [self.operand(st, fr, o) for o in rv[1]])
        if k == "rawptr":
            r = self.place(st, fr, rv[1])
            return RefV(r[1]) if r[0] == "v" else MutRef(r[1], r[2])
        raise Unsupported("rvalue " + k)
    def seqlen(self, st, v):
        if isinstance(v, MutRef):
            v2 = self.read(st, v.cell, v.proj); return slen(self.asseq(v2))
        return slen(self.asseq(v))
    def opty(self, fr, o):
        if o[0] == "k": return o[1]
        if o[0] in ("c", "m"):
            pl = o[1]
            if not pl[1]: return self.frames[fr]["locals"][pl[0]][0]
            last = pl[1][-1]
            if last[0] == "f": return last[2]
        return None
    # ---------- execution ----------
    frames = {}
    def call_body(self, fid, args, st):
        """interpret one local/std body; returns [(value,state)]"""
        f = self.P.fns[fid]
        if len(self.stack) > 60: raise Unsupported("call depth")
        if f["local"]:
            n = sum(1 for g in self.stack if g is f)
            if self.unroll is not None:
                if n > self.unroll: return []            # bounded: deeper recursion is not followed
            elif n > 2: raise Unsupported("recursive call of " + f["path"])
        self.fid += 1
        fr = self.fid
        self.frames[fr] = f
        if f["local"]: self.analysed.add(fid)
        if f.get("spread") is not None or (f["closure"] and len(args) == 2 and isinstance(args[1], Tup) and f["argc"] != 2):
            args = [args[0]] + list(args[1].f)
        elif f["closure"] and len(args) == 2 and isinstance(args[1], Tup) and f["argc"] == 2 and len(args[1].f) == 1 and f.get("spread") is None:
            args = [args[0], args[1].f[0]]
        for i, a in enumerate(args): st.cells[(fr, i + 1)] = a
        self.stack.append(f)
        try:
            outs = self.run(fr, f, 0, st, None)
        finally:
            self.stack.pop()
        r = []
        for tag, v, s in outs:
            for k in [k for k in s.cells if k[0] == fr]: del s.cells[k]
            r.append((v, s))
        del self.frames[fr]
        if f["local"] and len(r) > 1: r = self.lp.join_returns(f, r)
        return r
    def site(self, sp=None):
        for f in reversed(self.stack):
            if f["local"]: return f["path"]
        return self.stack[-1]["path"] if self.stack else "?"
    def panic(self, st, kind, msg=""):
        if self.quiet: return
        self.panics.append(Panic(self.site(), kind, st, "%s at %s" % (msg, getattr(self, "cursp", "?"))))
    def run(self, fr, f, bb0, st0, loop, flags=None):
        """explore from bb0.  loop=None: whole body, outs ('ret',value,st).
        loop given: one iteration from its header: outs ('back',None,st) | ('exit',bb,st)"""
        outs = []
        cfg = self.P.cfg(f["id"])
        loops = cfg.loops
        work = [(bb0, st0, True, False)]
        blocks = f["blocks"]
        while work:
            bb, st, first, passed = work.pop()
            if loop is not None and not first:
                if bb == loop.header: outs.append(("back", None, st)); continue
                if bb not in loop.blocks: outs.append(("exit", bb, st)); continue
            if bb in loops and not (loop is not None and bb == loop.header):
                for b2, s2 in self.lp.mir_loop(fr, f, loops[bb], st):
                    work.append((b2, s2, False, passed))
                continue
            B_ = blocks[bb]
            if B_ is None: raise Unsupported("cleanup block")
            self.steps += 1
            if self.steps > self.max_steps: raise Budget()
            tick()
            dead = False
            pend = [st]
            for s in B_["s"]:
                nx = []
                for st in pend:
                    k = s[0]
                    if k == "=":
                        self.cursp = s[4]
                        r = self.rvalue(st, fr, s[2], s[3], s[1])
                        if isinstance(r, list):
                            for v, s2 in r:
                                self.wplace(s2, fr, s[1], v); nx.append(s2)
                        else:
                            self.wplace(st, fr, s[1], r); nx.append(st)
                        continue
                    if k == "dead":
                        st.cells.pop((fr, s[1]), None)
                    elif k == "live":
                        st.cells[(fr, s[1])] = UNINIT
                    elif k == "sd":
                        r = self.place(st, fr, s[1])
                        o = self.read(st, r[1], r[2]); self.store(st, r[1], r[2], Adt(o.ty, s[2], o.f))
                    elif k == "assume":
                        pass
                    nx.append(st)
                pend = nx
            t = B_["t"]; k = t[0]
            self.cursp = B_["sp"]
            for st in pend:
                if k == "goto": work.append((t[1], st, False, passed))
                elif k == "return":
                    outs.append(("ret", st.cells.get((fr, 0), UNIT), st))
                elif k == "switch":
                    tg = self.switch(st, fr, t)
                    if flags is not None and not passed:
                        flags["n"] = flags.get("n", 0) + 1
                        if len(tg) > 1: flags["sym"] = True
                    for b2, s2 in tg: work.append((b2, s2, False, True))
                elif k == "drop": 
                    for s2 in self.dropped(st, fr, t[1]): work.append((t[2], s2, False, passed))
                elif k == "assert":
                    c = self.operand(st, fr, t[1]).c
                    if isinstance(c, tuple) and c[1] == "outside" and c[0] == "b":
                        r, lo, hi = c[2]
                        cur = [st]
                        for cc in (ge(r, K(lo)), ge(K(hi), r)):
                            nx = []
                            for s in cur:
                                ok, bad = s.split(cc)
                                if bad is not None and not memory_size(cc): self.panic(bad, t[3], show_c(cc))
                                if ok is not None: nx.append(ok)
                            cur = nx
                        for s in cur: work.append((t[4], s, False, passed))
                        continue
                    if not t[2]: c = neg(c)
                    ok, bad = st.split(c)
                    if bad is not None and not (t[3].startswith("Overflow") and memory_size(c)): self.panic(bad, t[3], show_c(c))
                    if ok is not None: work.append((t[4], ok, False, passed))
                elif k == "call":
                    rs = self.call(st, fr, t)
                    for v, s in rs:
                        if t[4] is None: continue
                        self.wplace(s, fr, t[3], v)
                        work.append((t[4], s, False, passed))
                elif k in ("unreachable", "resume"): pass
                else: raise Unsupported("terminator " + k)
        return outs
    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        if isinstance(v, Bo):
            out = []
            tb = None; fb = None
            for val, b in t[2]:
                if int(val) == 0: fb = b
                else: tb = b
            if tb is None: tb = t[3]
            if fb is None: fb = t[3]
            for s2, b in zip(self.split_bool(st, v.c), (tb, fb)):
                if s2 is not None: 
                    for s3 in s2: out.append((b, s3))
            return out
        if isinstance(v, Op): 
            v = self.nat.as_int(v)
        if not isinstance(v, Lin): raise Unsupported("switch on " + show(v)[:60])
        out = []; cur = st
        for val, b in t[2]:
            if cur is None: break
            val = int(val)
            lo, hi = rng(v)
            if lo < 0:
                pass
            tt, ff = cur.split(eq(v, K(val)))
            if tt is not None and tt is cur and ff is not None: tt = tt.fork()
            if tt is not None: out.append((b, tt))
            cur = ff
        if cur is not None and t[3] is not None: out.append((t[3], cur))
        return out
    def split_bool(self, st, c):
        """-> ([states where c], [states where not c])"""
        c = st.ctx.normc(c)
        if c is True: return [st], []
        if c is False: return [], [st]
        if c[0] in ("b", "nb") and c[1] == "and":
            x, y = c[2]
            t1, f1 = self.split_bool(st, x)
            ts, fs = [], list(f1)
            for s in t1:
                a, b = self.split_bool(s, y); ts += a; fs += b
            return (ts, fs) if c[0] == "b" else (fs, ts)
        if c[0] in ("b", "nb") and c[1] == "booleq":
            x, y = c[2]
            t1, f1 = self.split_bool(st, x)
            ts, fs = [], []
            for s in t1:
                a, b = self.split_bool(s, y); ts += a; fs += b
            for s in f1:
                a, b = self.split_bool(s, y); ts += b; fs += a
            return (ts, fs) if c[0] == "b" else (fs, ts)
        if c[0] in ("b", "nb") and c[1] == "outside":
            r, lo, hi = c[2]
            o = self.outside(st, r, lo, hi)
            if isinstance(o, list):
                t1, f1 = self.split_bool(st, o[0]); ts = list(t1); fs = []
                for s in f1:
                    a, b = self.split_bool(s, o[1]); ts += a; fs += b
            else: ts, fs = self.split_bool(st, o)
            return (ts, fs) if c[0] == "b" else (fs, ts)
        t, f = st.split(c)
        return ([t] if t is not None else []), ([f] if f is not None else [])
    # ---------- calls ----------
    def call(self, st, fr, t):
        c = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        if "ptr" in c:
            fv = self.operand(st, fr, c["ptr"])
            return self.call_value(st, fv, args, t[5], t[6])
        return self.invoke(st, c, args, t[5], t[6])
    def invoke(self, st, c, args, retty, argtys):
        if c.get("ctor"):
            T = self.P.types[retty]
            return [(Adt(retty, c.get("variant") or 0, args), st)]
        p = c["path"]
        if self.stubs:
            for key in (p, c.get("ipath")):
                if key in self.stubs: return self.stubs[key](self, st, c, args, retty, argtys)
        if not c.get("local") or c.get("trait"):
            r = self.nat.call(st, c, args, retty, argtys)
            if r is not None: return r
        if c.get("inst") is not None:
            return self.call_body(c["inst"], args, st)
        if c.get("ikind") == "drop_glue": return [(UNIT, st)]
        raise Unsupported("call to %s [%s]" % (p, c.get("ipath")))
    def dropped(self, st, fr, pl):
        """states after the destructor of a place: a buffering writer still hands its bytes on"""
        v = st.cells.get((fr, pl[0]))
        if not (isinstance(v, Op) and v.n == "BufWriter") or pl[1] or not v.a[1].s: return [st]
        return [s for _, s in self.nat.flush_writer(st, MutRef((fr, pl[0])))]
    def call_value(self, st, fv, args, retty=None, argtys=None):
        """call a closure / fn item value with a list of arguments"""
        if isinstance(fv, RefV): return self.call_value(st, fv.v, args, retty, argtys)
        if isinstance(fv, MutRef):
            v = self.read(st, fv.cell, fv.proj)
            if isinstance(v, Clos):
                return self.call_body(v.inst, [self.clos_self(v.inst, fv, v)] + list(args), st)
            return self.call_value(st, v, args, retty, argtys)
        if isinstance(fv, Clos):
            f = self.P.fns[fv.inst]
            st0 = f["locals"][1][0]
            T = self.P.types[st0]
            if T["k"] == "ref" and T.get("mut"):
                c = self.newcell(st, fv)
                return self.call_body(fv.inst, [MutRef(c)] + list(args), st)
            if T["k"] == "ref": return self.call_body(fv.inst, [RefV(fv)] + list(args), st)
            return self.call_body(fv.inst, [fv] + list(args), st)
        if isinstance(fv, FnDef):
            c = fv.c
            return self.invoke(st, c, list(args), retty if retty is not None else c.get("ret"), argtys)
        raise Unsupported("call of " + show(fv)[:60])
    def clos_self(self, inst, ref, v):
        f = self.P.fns[inst]
        T = self.P.types[f["locals"][1][0]]
        if T["k"] == "ref" and T.get("mut"): return ref
        if T["k"] == "ref": return RefV(v)
        return v

def disjoint(a, b):
    """no common set bits, provable from trailing zeros / ranges"""
    def tz(x):
        z = 64
        for _, k in x.t:
            n = 0
            while k % 2 == 0: k //= 2; n += 1
            z = min(z, n)
        c = x.c
        if c:
            n = 0
            while c % 2 == 0: c //= 2; n += 1
            z = min(z, n)
        return z
    la, ha = rng(a); lb, hb = rng(b)
    if la < 0 or lb < 0: return False
    if ha < (1 << tz(b)): return True
    if hb < (1 << tz(a)): return True
    # bit level
    ea, eb = expand_bits(a), expand_bits(b)
    def bitset(x):
        s = set(); 
        for at, k in x.t:
            if at.lo < 0 or at.hi > 1 or k <= 0 or k & (k - 1): return None
            if k in s: return None
            s.add(k)
        c = x.c; i = 1
        while c:
            if c & 1:
                if i in s: return None
                s.add(i)
            c >>= 1; i <<= 1
        return s
    sa, sb = bitset(ea), bitset(eb)
    return sa is not None and sb is not None and not (sa & sb)
