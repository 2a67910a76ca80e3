"""Reference semantics written in Python, evaluated on the abstract outcomes of the implementation and compared with them."""
from terms import *
import terms, seqs, interp
from seqs import slen, cat, els, const_seq, mkseq, slice_, index
from model import Unsupported
from natives import bytes_int, signed
from interp import State

class SErr(Exception):
    """the specification demands an error"""
    def __init__(self, kind=None, arg=None): self.kind = kind; self.arg = arg
class DontCare(Exception): pass
class Infeasible(Exception): pass
class Mismatch(Exception):
    def __init__(self, what, got=None, want=None):
        self.what = what; self.got = got; self.want = want
        Exception.__init__(self, what)
    def __str__(self):
        s = self.what
        if self.got is not None: s += "; the code yields %s" % sh(self.got)
        if self.want is not None: s += "; required is %s" % sh(self.want)
        return s
class Brk(Exception):
    def __init__(self, *v): self.v = v
class Cont(Exception):
    def __init__(self, *v): self.v = v

def sh(x):
    try: r = show(x) if isinstance(x, (V, Lin)) else show_c(x) if isinstance(x, tuple) and x and x[0] in ("ge", "eq", "ne", "b", "nb") else str(x)
    except Exception: r = repr(x)
    return r if len(r) < 500 else r[:500] + "..."

class Cur:
    """reading position in a byte sequence"""
    def __init__(self, q, pos=ZERO): self.q = q; self.pos = pos
    @property
    def left(self): return sub(slen(self.q), self.pos)

class S:
    MAXF = 4000
    def __init__(self, I, st, notes, choices, P=None):
        self.I = I; self.P = I.P; self.st = st; self.nat = I.nat
        self.notes = list(notes); self.ni = 0
        self.choices = choices; self.ci = 0
        self.made = []           # (index, number of alternatives)
        self.extra = []          # facts assumed by the specification
        self.log = list(st.log); self.li = 0
        self.events = []
    @property
    def ctx(self): return self.st.ctx
    # --- nondeterminism
    def choose(self, n):
        interp.tick()
        if n == 1: return 0
        if self.ci < len(self.choices): i = self.choices[self.ci]
        else: i = 0
        self.ci += 1
        self.made.append((i, n)); 
        return i
    def assume(self, c):
        s = self.st.assume(c)
        if s is None: raise Infeasible()
        if s is not self.st:
            self.extra.append(c); self.st = s
    def test(self, c):
        if isinstance(c, Bo): c = c.c
        if c is True or c is False: return c
        ts, fs = self.I.split_bool(self.st, c)
        al = [(True, s) for s in ts] + [(False, s) for s in fs]
        # drop alternatives that more careful reasoning excludes
        if len(al) > 1:
            al = [(b, s) for b, s in al]
        if not al: raise Infeasible()
        i = self.choose(len(al))
        b, s = al[i]
        n0 = len(self.st.ctx.lits)
        self.extra.extend(s.ctx.lits[n0:])
        if s is not self.st: self.st = s.fork()
        return b
    def pick(self, rs):
        """rs: [(value, state)]"""
        if not rs: raise Infeasible()
        v, s = rs[self.choose(len(rs))]
        n0 = len(self.st.ctx.lits)
        self.extra.extend(s.ctx.lits[n0:]); self.st = s.fork()
        return v
    def require(self, c, kind=None):
        if not self.test(c): raise SErr(kind)
    # --- reading
    def take(self, cu, n):
        if isinstance(n, int): n = K(n)
        L = slen(cu.q)
        if n.const != 0:
            z = False
            if n.const is None: z = self.test(eq(n))
            if z: return Seq(())
            self.require(ge(L, add(cu.pos, n)), "eof")
        q = slice_(cu.q, cu.pos, n, self.ctx)
        cu.pos = add(cu.pos, n)
        return q
    def u(self, cu, n, en="le"):
        return bytes_int(seqs.byte_list(self.take(cu, n), n), en)
    def u8(self, cu): return self.u(cu, 1)
    def le(self, cu, n): return self.u(cu, n, "le")
    def be(self, cu, n): return self.u(cu, n, "be")
    def rest(self, cu):
        n = cu.left
        if self.test(lt(n, ZERO)): return Seq(())
        return self.take(cu, n)
    def utf8(self, q):
        if not self.test(rebuild_bool("utf8", (self.ctx.norm(q),))): raise SErr("utf8")
        return q
    def text(self, cu, n): return self.utf8(self.take(cu, n))
    def lenenc(self, cu):
        """length-encoded integer: by contract when the code's reader is, else by its definition"""
        import contracts
        if contracts.LENENC in self.I.stubs:
            val, n, ok = contracts.lenenc_terms(self.ctx, cu.q, cu.pos)
            if not self.test(ok): raise SErr("lenenc")
            self.assume(ge(slen(cu.q), add(cu.pos, n)))
            cu.pos = add(cu.pos, n)
            return val
        b = self.u8(cu)
        if self.test(lt(b, K(0xFB))): return b
        k = self.switch(b, [0xFC, 0xFD, 0xFE])
        if k is None: raise SErr("lenenc")
        return self.le(cu, {0xFC: 2, 0xFD: 3, 0xFE: 8}[k])
    def lenstr(self, cu):
        n = self.lenenc(cu)
        return self.text(cu, n)
    def until(self, cu, b):
        """bytes up to the next b, which is skipped, or up to the end"""
        r = self.rest(Cur(cu.q, cu.pos))
        i = self.find(r, b)
        if i is None:
            if not self.test(lt(slen(cu.q), cu.pos)): cu.pos = slen(cu.q)
            return r, False
        q = slice_(r, ZERO, i, self.ctx); cu.pos = add(cu.pos, add(i, ONE))
        return q, True
    def find(self, q, b):
        return self.pick(self.nat.find_byte(self.st, q, b if isinstance(b, Lin) else K(b)))
    def switch(self, x, vals):
        """concrete value among vals, or None"""
        c = self.ctx.norm(x).const
        if c is not None: return c if c in vals else None
        for v in vals:
            if self.test(eq(x, K(v))): return v
        return None
    # --- values
    def ty(self, path):
        for i, t in enumerate(self.P.types):
            if t["k"] == "adt" and t["path"] == path and t.get("variants") is not None: return i
        raise Unsupported("type %s is gone" % path)
    def struct(self, path, **kw):
        t = self.ty(path); fs = self.P.variants(t)[0]["fields"]
        names = [f[0] for f in fs]
        if set(names) != set(kw): raise Unsupported("fields of %s changed" % path)
        return Adt(t, 0, [kw[n] for n in names])
    def enum(self, t, name, *f):
        if isinstance(t, str): t = self.ty(t)
        for i, v in enumerate(self.P.variants(t)):
            if v["name"] == name: return Adt(t, i, f)
        raise Unsupported("variant %s of %s is gone" % (name, self.P.types[t]["path"]))
    def fty(self, path, field, variant=0):
        for f in self.P.variants(self.ty(path))[variant]["fields"]:
            if f[0] == field: return f[1]
        raise Unsupported("field %s of %s is gone" % (field, path))
    def some(self, t, v): return self.enum(t, "Some", v)
    def none(self, t): return self.enum(t, "None")
    def field(self, v, name):
        """field of a struct value by name"""
        while isinstance(v, RefV): v = v.v
        if isinstance(v, (Adt, SymAdt)):
            vs = self.P.variants(v.ty); vi = v.var if isinstance(v, Adt) else 0
            for i, f in enumerate(vs[vi]["fields"]):
                if f[0] == name: return self.P.field(v, i, vi)
        raise Unsupported("no field %s in %s" % (name, show(v)[:60]))
    def variant(self, v):
        """name of the variant of an enum value (splitting a symbolic one) and its fields"""
        while isinstance(v, RefV): v = v.v
        if isinstance(v, Op) and v.n == "box": return self.variant(v.a[0])
        if isinstance(v, Adt):
            return self.P.variants(v.ty)[v.var]["name"], v.f
        if isinstance(v, SymAdt):
            vs = self.P.variants(v.ty)
            if len(vs) > 1:
                d = self.P.discr_atom(v)
                x = self.switch(d, [int(w["discr"]) for w in vs])
                if x is None: raise Infeasible()
                i = self.P.variant_of(v, x)
            else: i = 0
            return vs[i]["name"], [self.P.field(v, j, i) for j in range(len(vs[i]["fields"]))]
        raise Unsupported("variant of " + show(v)[:60])
    # --- events of the protocol log
    def next_event(self):
        if self.li >= len(self.log): raise Mismatch("the code stops where a further exchange with the peer is required")
        e = self.log[self.li]; self.li += 1
        return e
    def peer(self):
        e = self.next_event()
        while e[0] == "print": e = self.next_event()
        return e
    def send(self, q, seq, what, aspects=()):
        """one packet to the server; its content and number matter to the aspects in focus"""
        e = self.peer()
        if e[0] not in ("send", "senderr"): raise Mismatch("%s has to be sent, but the code %s" % (what, DID.get(e[0], e[0])))
        f = self.I.focus
        if "seq" in f and not eqv(self, e[2], seq): raise Mismatch("sequence number of %s" % what, e[2], seq)
        if any(a in f for a in aspects) and q is not None and not eqv(self, e[1], q): raise Mismatch("content of %s" % what, e[1], q)
        if e[0] == "senderr": raise SErr("send")
    def recv(self, what):
        e = self.peer()
        if e[0] == "recverr": raise SErr("recv")
        if e[0] != "recv": raise Mismatch("%s has to be received, but the code %s" % (what, DID.get(e[0], e[0])))
        return e[1], e[2]
    def event(self, kind, what):
        e = self.peer()
        if e[0] == kind + "err": raise SErr(kind)
        if e[0] != kind: raise Mismatch("%s is required, but the code %s" % (what, DID.get(e[0], e[0])))
        return e
    def bits(self, x, mask): return self.I.bitconst("BitAnd", self.ctx.norm(x), mask, (1 << 64) - 1)
    def flag(self, x, mask): return self.test(ne(self.bits(x, mask)))
    def xor(self, a, b): return self.I.bitop(self.st, "BitXor", a, b, self.P.u8)
    def int_le(self, x, n): return self.nat.int_bytes(x, n, "le")
    def dec(self, x):
        import nat_misc
        return nat_misc.dec_seq(self.ctx.norm(x))
    def same(self, q, b):
        """is the text q equal to the constant b"""
        return self.test(mkbo(self.nat.equal(self.st, q, const_seq(b))))
    # --- loops
    def loop(self, body, *vars):
        """vars -> body(*vars) returns the next vars, or raises Brk(results)"""
        n = self.ni
        while n < len(self.notes):
            _, L, i = self.notes[n]
            r = self.couple(L, i, body, vars)
            if r is not None:
                self.ni = n + 1
                hl = L.head.log
                if hl and hl[-1] == ("LOOP", L.id):
                    if self.li != len(hl) - 1: raise LoopMismatch("an exchange with the peer is missing before a repetition (%s)" % L.site)
                    self.li = len(hl)
                hv = r
                try: body(*hv)
                except Brk as b: return tuple(self.fin(L, x) for x in b.v)
                raise LoopMismatch("the code leaves a repetition that has to go on (%s)" % L.site)
            n += 1
        # no summarised repetition: unroll
        free = 0; most = 4 if self.I.unroll is None else self.I.unroll + 1
        for k in range(600):
            m = len(self.made)
            try: vars = tup(body(*vars))
            except Brk as b: return b.v
            free += len(self.made) > m
            if free > most: break
        raise LoopMismatch("no repetition of the code matches a required one")
    def fin(self, L, x):
        if not L.finals: return x
        return self.I.lp.replacer(self.ctx, L.id, L.finals, L.kap)(x)
    def sites(self, L):
        """(value at head, initial value, reader on back states)"""
        I = self.I; res = []
        seen = set()
        kx = A(L.kap)
        for l in L.leaves:
            for d in range(len(l.proj), -1, -1):
                key = (l.cell, l.proj[:d])
                if key in seen: continue
                seen.add(key)
                try:
                    hv = I.read(L.head, *key); iv = I.read(L.st0, *key)
                except Exception: continue
                if isinstance(hv, Uninit) or isinstance(iv, Uninit): continue
                res.append((key, hv, iv))
        return res
    def candidates(self, L, v):
        """ways to express the specification's variable at the head of the code's loop"""
        out = []
        I = self.I
        if isinstance(v, Lin):
            if v.const == 0 or True: out.append(("kap", 1, v))
            for key, hv, iv in self.sites(L):
                if isinstance(hv, Lin) and isinstance(iv, Lin): e = (hv, iv)
                elif isinstance(hv, Seq): e = (slen(hv), slen(iv))
                else: continue
                if e[0] == e[1]: continue
                same = self.ctx.norm(sub(e[1], v)).const == 0
                out.append(("lin", key, 1, sub(v, e[1]))); 
                if same: out.insert(0, out.pop())
                out.append(("lin", key, -1, add(v, e[1])))
        else:
            for key, hv, iv in self.sites(L):
                if type(hv) is type(v) or isinstance(v, (Adt, SymAdt)) and isinstance(hv, (Adt, SymAdt)):
                    if eqv(self, iv, v, quick=True): out.append(("val", key))
                    elif isinstance(v, Seq) and not v.s and isinstance(iv, Seq) and len(hv.s) == 1 and hv.s[0][0] == "app" and hv.s[0][1] == "acc": out.append(("pre", key))
        out.append(("same", v))
        return out
    def expr(self, L, cand, st, back=False):
        k = cand[0]
        if k == "same": return cand[1]
        if k == "kap":
            x = A(L.kap)
            if back: x = add(x, ONE)
            return add(cand[2], x)
        v = self.I.read(st, *cand[1])
        if k == "val": return v
        if k == "pre":
            # the part of an array filled so far
            x = A(L.kap)
            if not back: return seqs.slice_(v, ZERO, x, st.ctx)
            if len(v.s) == 1 and v.s[0][0] == "upd" and st.ctx.norm(v.s[0][2]) == st.ctx.norm(x):
                return seqs.cat(seqs.slice_(v.s[0][1], ZERO, x, st.ctx), Seq((("el", v.s[0][3]),)))
            return seqs.slice_(v, ZERO, add(x, ONE), st.ctx)
        if isinstance(v, Seq): v = slen(v)
        return add(cand[3], scale(v, cand[2]))
    def couple(self, L, i, body, vars):
        """expressions for vars at the head of L such that L and body advance in lockstep; None if there are none"""
        cands = [self.candidates(L, v) for v in vars]
        cache = L.__dict__.setdefault("coupled", {})
        key0 = (body.__code__, tuple(repr(self.captured(body))), tuple(show_c(c) for c in self.extra))
        import itertools
        tries = 0
        for combo in itertools.product(*cands):
            tries += 1
            if tries > 400: break
            key = key0 + (repr(combo),)
            ok = cache.get(key)
            if ok is None:
                ok = self.simulates(L, combo, body)
                cache[key] = ok
            if ok is True:
                tag, delta, s = L.exits[i]
                return tuple(self.expr(L, c, L.head) for c in combo)
        return None
    def captured(self, body):
        r = []
        for c in body.__closure__ or ():
            try: v = c.cell_contents
            except ValueError: continue
            if isinstance(v, (V, Lin, int, str, tuple, bool)) or v is None: r.append(v)
            elif isinstance(v, Cur): r.append((v.q, v.pos))
        return r
    def simulates(self, L, combo, body):
        why = None
        for lits, vs, lg, s in L.backs:
            st = s.fork()
            ok = True
            for c in self.extra:
                st = st.assume(c)
                if st is None: ok = False; break
            if not ok: continue
            notes = [n for n in s.notes[len(L.head.notes):] if n[0] == "loop"]
            hv = tuple(self.expr(L, c, L.head) for c in combo)
            nv = tuple(self.expr(L, c, s, True) for c in combo)
            def run(z):
                z.log = list(s.log); z.li = len(L.head.log)
                try: r = tup(body_for(body, self, z)(*hv))
                except Brk: raise Mismatch("the code repeats where the repetition has to end")
                except SErr: raise Mismatch("the code repeats where an error is required")
                except DontCare: return
                for a, b in zip(nv, r):
                    if not eqv(z, a, b): raise Mismatch("loop variable", a, b)
                if z.li != len(s.log): raise Mismatch("additional exchange with the peer inside a loop")
            try:
                for_all(self.I, st, notes, run)
            except Mismatch as m:
                return str(m)
        return True

class LoopMismatch(Mismatch): pass
DID = {"send": "sends a packet", "senderr": "sends a packet", "recv": "waits for a packet", "recverr": "waits for a packet", "LOOP": "repeats an exchange",
       "tls": "starts TLS", "open": "connects", "openerr": "connects"}

ACTIVE = [None]
class Proxy:
    """the specification object in use (bodies of loops are re-run under other outcomes)"""
    def __getattr__(self, k): return getattr(ACTIVE[0], k)
def body_for(body, s, z): return body

def tup(x): return x if isinstance(x, tuple) else (x,)

def for_all(I, st, notes, run, limit=3000):
    """run a specification under every combination of its undecided tests"""
    choices = []
    n = 0; results = []
    saved = ACTIVE[0]
    try:
        while True:
            n += 1
            if n > limit: raise Unsupported("too many cases in the specification")
            z = S(I, st.fork(), notes, choices)
            ACTIVE[0] = z
            try: results.append(run(z))
            except Infeasible: pass
            made = z.made
            while made and made[-1][0] + 1 >= made[-1][1]: made.pop()
            if not made: return results
            choices = [m[0] for m in made[:-1]] + [made[-1][0] + 1]
    finally:
        ACTIVE[0] = saved

# ---------------------------------------------------------------- equality
def bitwise_equal(ctx, a, b):
    """equality after every value split into bits on one side is split on both, known bits resolved"""
    def walk(x, out):
        for at, k in x.t:
            if at in out: continue
            out.add(at)
            if at.kind == "div": walk(at.args[0], out)
    at = set(); walk(a, at); walk(b, at)
    bits = [x for x in at if x.kind == "bit"]
    if not bits: return False
    m = {}
    for x in {y.args[0] for y in bits}:
        if isinstance(x, Lin): continue
        e = bits_of(x)
        if e is None: continue
        m[x] = e
    d = subst(ctx.norm(sub(a, b)), m)
    if lin_zero(d): return True
    if all(x.kind == "bit" for x, _ in d.t):
        # bits beyond the range of the value they belong to
        k = {}
        for x in {x.args[0] for x, _ in d.t}:
            if isinstance(x, Lin): continue
            hi = next((n for n in range(0, 64, 8) if ctx.entails(lt(A(x), K(1 << n)))), 64)
            k.update({bt: ZERO for bt, _ in d.t if bt.args[0] == x and bt.args[1] >= hi})
        d = subst(d, k)
    # bits that do not cancel may be known
    for _ in range(2):
        known = {}
        bs = set(); walk(d, bs)
        for bt in bs:
            if bt.kind != "bit" or len(known) > 80: continue
            if ctx.entails(ge(ZERO, A(bt))): known[bt] = ZERO
            elif ctx.entails(ge(A(bt), ONE)): known[bt] = ONE
        if not known: return False
        d = subst(d, known)
        if lin_zero(d): return True
    return False
def eqv(z, a, b, quick=False):
    ctx = z.ctx
    if a is b or a == b: return True
    while isinstance(a, RefV): a = a.v
    while isinstance(b, RefV): b = b.v
    if isinstance(a, Op) and a.n == "box": a = a.a[0]
    if isinstance(b, Op) and b.n == "box": b = b.a[0]
    if a == b: return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        c = ctx.normc(eq(a, b))
        if c is True: return True
        if c is False: return False
        if quick: return False
        if lin_zero(ctx.norm(sub(a, b))): return True
        r = bitwise_equal(ctx, a, b)
        if r: return True
        d = sub(a, b)
        return ctx.entails(ge(d)) and ctx.entails(ge(ZERO, d))
    if isinstance(a, Bo) and isinstance(b, Bo):
        x, y = ctx.normc(a.c), ctx.normc(b.c)
        if x == y: return True
        if quick: return False
        if x in (True, False) and y in (True, False): return x == y
        # both ways
        for p, q in ((x, y), (y, x)):
            ts, fs = z.I.split_bool(z.st, p)
            for s in ts:
                if s.ctx.normc(q) is not True and not s.ctx.entails(q): return False
            for s in fs:
                if s.ctx.normc(q) is not False and not s.ctx.entails(neg(q) if q not in (True, False) else not q): return False
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        a, b = ctx.norm(a), ctx.norm(b)
        if a == b: return True
        return False if quick else seq_eqv(z, a, b)
    if isinstance(a, (Adt, SymAdt)) and isinstance(b, (Adt, SymAdt)):
        if a.ty != b.ty: return False
        P = z.P
        if isinstance(a, SymAdt) and isinstance(b, SymAdt): return ctx.norm(a) == ctx.norm(b)
        va, vb = (a, b)
        if isinstance(va, SymAdt): va, vb = vb, va
        if isinstance(vb, SymAdt):
            vs = P.variants(vb.ty)
            if len(vs) > 1:
                d = P.discr_atom(vb)
                if not ctx.entails(eq(d, K(int(vs[va.var]["discr"])))): return False
            return all(eqv(z, x, P.field(vb, i, va.var), quick) for i, x in enumerate(va.f))
        return a.var == b.var and len(a.f) == len(b.f) and all(eqv(z, x, y, quick) for x, y in zip(a.f, b.f))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.f) == len(b.f) and all(eqv(z, x, y, quick) for x, y in zip(a.f, b.f))
    if isinstance(a, Op) and isinstance(b, Op):
        if a.n == "map" and b.n == "map": return map_eqv(z, a, b, quick)
        return a.n == b.n and len(a.a) == len(b.a) and all(x == y or (isinstance(x, (V, Lin)) and eqv(z, x, y, quick)) or arg_eqv(z, x, y, quick) for x, y in zip(a.a, b.a))
    return False
def arg_eqv(z, x, y, quick):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x and x[0] in ("ge", "eq", "ne", "b", "nb") and y and y[0] in ("ge", "eq", "ne", "b", "nb"): return eqv(z, Bo(x), Bo(y), quick)
        return len(x) == len(y) and all(p == q or (isinstance(p, (V, Lin)) and isinstance(q, (V, Lin)) and eqv(z, p, q, quick)) or arg_eqv(z, p, q, quick) for p, q in zip(x, y))
    return x == y
def map_eqv(z, a, b, quick):
    a, b = z.ctx.norm(a), z.ctx.norm(b)
    if a == b: return True
    return a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and all(x[0] == y[0] and (x == y or all(p == q or (isinstance(p, (V, Lin)) and isinstance(q, (V, Lin)) and eqv(z, p, q, quick)) for p, q in zip(x, y))) for x, y in zip(a.a[1], b.a[1]))
DIGITS = ("dec", "zpad")
def expand_digits(ctx, segs):
    """text of known length split into characters"""
    r = []
    for s in segs:
        if s[0] == "k": r += [("el", K(x)) for x in s[1]] if isinstance(s[1], bytes) else [s]; continue
        if s[0] == "app" and s[1] == "zpad" and s[2][1].const is not None:
            v, w = s[2][0], s[2][1].const
            if ctx.entails(lt(v, K(10 ** w))):
                r += [("el", add(fmod(fdiv(v, 10 ** (w - 1 - i)), 10), K(48))) for i in range(w)]; continue
        r.append(s)
    return r
def seq_eqv(z, a, b):
    ctx = z.ctx
    xs = [s for s in a.s]; ys = [s for s in b.s]
    while xs and ys and xs[0][0] == ys[0][0] == "app" and xs[0][1] == ys[0][1] and xs[0][1] in DIGITS and arg_eqv(z, xs[0][2], ys[0][2], False): xs.pop(0); ys.pop(0)
    while xs and ys and xs[-1][0] == ys[-1][0] == "app" and xs[-1][1] == ys[-1][1] and xs[-1][1] in DIGITS and arg_eqv(z, xs[-1][2], ys[-1][2], False): xs.pop(); ys.pop()
    if any(s[0] == "app" and s[1] in DIGITS for s in xs + ys):
        # numbers side by side
        xs, ys = [expand_digits(ctx, l) for l in (xs, ys)]
        while xs and ys:
            x, y = xs[0], ys[0]
            if x[0] == y[0] == "app" and x[1] == y[1] and x[1] in DIGITS:
                if not arg_eqv(z, x[2], y[2], False): break
                xs.pop(0); ys.pop(0); continue
            if x[0] == y[0] == "el":
                if not eqv(z, x[1], y[1]): return False
                xs.pop(0); ys.pop(0); continue
            break
    a, b = Seq(tuple(xs)), Seq(tuple(ys))
    la, lb = ctx.norm(slen(a)), ctx.norm(slen(b))
    if not eqv(z, la, lb): return False
    if la.const is not None and la.const <= 64:
        return all(eqv(z, index(a, K(i), ctx, el_ety(a)), index(b, K(i), ctx, el_ety(b))) for i in range(la.const))
    while xs and ys:
        x = xs[0]; y = ys[0]
        nx, ny = ctx.norm(seqs.seglen(x)), ctx.norm(seqs.seglen(y))
        if eqv(z, nx, ny):
            if not seg_eqv(z, x, y, nx): return False
            xs.pop(0); ys.pop(0); continue
        if ctx.entails(eq(nx)): xs.pop(0); continue
        if ctx.entails(eq(ny)): ys.pop(0); continue
        if ctx.entails(gt(ny, nx)):
            if not seg_eqv(z, x, piece(y, ZERO, nx, ctx), nx): return False
            xs.pop(0); ys[0] = piece(y, nx, sub(ny, nx), ctx); continue
        if ctx.entails(gt(nx, ny)):
            if not seg_eqv(z, piece(x, ZERO, ny, ctx), y, ny): return False
            ys.pop(0); xs[0] = piece(x, ny, sub(nx, ny), ctx); continue
        return False
    return all(ctx.entails(eq(seqs.seglen(s))) for s in xs + ys)
def piece(s, lo, n, ctx):
    r = seqs.seg_slice(s, lo, n, ctx)
    return r[0] if len(r) == 1 else ("sl", Seq((s,)), lo, n)
def el_ety(q):
    for s in q.s:
        if s[0] in ("in", "app"): return s[4]
    return None
NPROBE = [0]
def seg_eqv(z, x, y, n):
    if x == y: return True
    if x[0] == y[0] == "app" and x[1] == y[1]: 
        if arg_eqv(z, x[2], y[2], False): return True
    if x[0] == y[0] and x[0] in ("el",): return eqv(z, x[1], y[1])
    if x[0] in ("rev",) and y[0] == "rev": return seq_eqv(z, x[1], y[1])
    # element-wise at an arbitrary index
    if x[0] in ("in", "k", "rep", "gen", "bgen", "sl", "el", "app") and y[0] in ("in", "k", "rep", "gen", "bgen", "sl", "el", "app") and not (x[0] == y[0] == "app"):
        NPROBE[0] += 1
        i = A(atom("sym", (("probe", NPROBE[0]),), 0, (1 << 63) - 1))
        st = z.st.assume(gt(n, i))
        if st is None: return True
        z2 = S(z.I, st, (), [])
        try:
            ea = index(Seq((x,)), i, st.ctx, el_ety(Seq((x,)))); eb = index(Seq((y,)), i, st.ctx, el_ety(Seq((y,))))
        except Exception: return False
        return eqv(z2, ea, eb)
    return False

# ---------------------------------------------------------------- driver
def imprecise(x):
    """does a value depend on something a loop summary does not determine"""
    if isinstance(x, tuple): return any(imprecise(e) for e in x)
    if not isinstance(x, (V, Lin)): return False
    return any(a.kind == "lv" or a.kind == "kap" and a.args[0] != "lv" for a in support(x)) or "acc" in show(x)
class Report:
    aspect = None     # set: only findings about one aspect (panic, alloc, loop) of every analysis count
    def bad(self, name, m, st):
        if self.aspect and not getattr(m, "aspect", None): return
        self.viol.append((name, str(m), [show_c(c) for c in st.ctx.lits] if st is not None else []))
        if isinstance(m, LoopMismatch) or imprecise(m.got) or imprecise(m.want): self.weak += 1
    def __init__(self):
        self.functions = []; self.cases = 0; self.viol = []; self.undecided = []; self.paths = 0; self.rules = []
        self.loops = 0; self.weak = 0

def compare(I, outs, args, spec, rep, name, check=None, limit=3000, errkind=False, panics=True):
    """outs: outcomes of the code; spec(z, args) -> value (or raises SErr)"""
    if rep.aspect: return
    for v, st in outs:
        rep.paths += 1
        notes = [n for n in st.notes if n[0] == "loop"]
        ok = v
        def run(z):
            rep.cases += 1
            try:
                want = spec(z)
            except DontCare: return
            except SErr as e:
                isok, val = outcome(z, v)
                if isok: raise Mismatch("accepted although an error is required", val)
                if check is not None: check(z, st, val, e)
                return
            isok, val = outcome(z, v)
            if not isok: raise Mismatch("an error is returned although a result is required", val, want)
            if want is not None and not eqv(z, val, want): raise Mismatch("wrong result" + diffpath(z, val, want), val, want)
            if check is not None: check(z, st, val, None)
        try:
            for_all(I, st, notes, run, limit)
        except Mismatch as m:
            rep.bad(name, m, st)
    if panics:
        def run(z):
            rep.cases += 1
            try: want = spec(z)
            except DontCare: return
            except SErr: want = "an error"
            return want
        for p in I.panics: check_panic(I, p, run, rep, name, limit)
def check_panic(I, p, run, rep, name, limit=3000):
    """a reachable panic is a violation where an outcome is required (run returns something)"""
    if rep.aspect: return
    notes = [n for n in p.st.notes if n[0] == "loop"]
    weak = bool(notes) or any(mentions(c) for c in p.lits) or "lv(" in p.msg or "kap(" in p.msg
    def one(z):
        want = run(z)
        if want is not None: raise (LoopMismatch if weak else Mismatch)("panics (%s %s in %s) although a result is required" % (p.kind, p.msg[:120], p.site), None, want if isinstance(want, V) else None)
    try: for_all(I, p.st, notes, one, limit)
    except LoopMismatch as m: rep.bad(name, m, p.st)
    except Mismatch as m: rep.bad(name, LoopMismatch(str(m)) if weak else m, p.st)
def mentions(c): return "lv(" in show_c(c) or "kap(" in show_c(c)
def outcome(z, v):
    """(is Ok, payload)"""
    if isinstance(v, (Adt, SymAdt)) and z.P.types[v.ty]["path"].endswith("result::Result"):
        n, f = z.variant(v)
        return n == "Ok", f[0]
    return True, v
def diffpath(z, a, b, d=0):
    """name of the first differing field"""
    while isinstance(a, RefV): a = a.v
    while isinstance(b, RefV): b = b.v
    if d < 6 and isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty and a.var == b.var:
        vs = z.P.variants(a.ty)[a.var]["fields"]
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            if not eqv(z, x, y): return " in field %s" % vs[i][0] + diffpath(z, x, y, d + 1)
    return ""
