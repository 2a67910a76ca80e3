"""Path facts: solved equalities, linear inequalities (interval + Fourier-Motzkin elimination), opaque booleans."""
from terms import *
from math import gcd

FM_MAX = 120

class Ctx:
    __slots__ = ("sub", "ges", "nes", "bools", "lits", "iv", "_n", "_sb")
    def __init__(self):
        self.sub = {}; self.ges = (); self.nes = (); self.bools = {}; self.lits = (); self.iv = {}; self._n = {}; self._sb = None
    def copy(self):
        c = Ctx.__new__(Ctx)
        c.sub = self.sub; c.ges = self.ges; c.nes = self.nes; c.bools = self.bools; c.lits = self.lits; c.iv = self.iv; c._n = {}; c._sb = self._sb
        return c
    def norm(self, x):
        if not self.sub: return x
        if isinstance(x, Lin):
            if not x.t: return x
            r = self._n.get(x)
            if r is None:
                r = subst(x, self.sub); self._n[x] = r
            return r
        return subst(x, self.sub)
    def normc(self, c):
        """normalise a condition under known facts: returns True/False/cond"""
        if c is True or c is False: return c
        k = c[0]
        if k in ("ge", "eq", "ne"):
            n = self.norm(c[1])
            r = {"ge": ge, "eq": eq, "ne": ne}[k](n)
            if r is True or r is False: return r
            lo, hi = rng(r[1], self.iv)
            if k == "ge":
                if lo >= 0: return True
                if hi < 0: return False
            elif k == "eq":
                if lo > 0 or hi < 0: return False
                if lo == 0 == hi: return True
            else:
                if lo > 0 or hi < 0: return True
                if lo == 0 == hi: return False
            return r
        args = self.norm(c[2])
        r = rebuild_bool(c[1], args)
        if k == "nb": r = neg(r)
        if r is True or r is False: return r
        if r[0] in ("ge", "eq", "ne"): return self.normc(r) if r != c else r
        v = self.bools.get((r[1], r[2]))
        if v is None and r[1] == "seqeq":
            # a text equal to one constant is not equal to another
            import seqs
            x, y = r[2]; cy = seqs.const_bytes(y)
            if cy is not None:
                for (nm, ar), w in self.bools.items():
                    if w and nm == "seqeq" and ar[0] == x and seqs.const_bytes(ar[1]) not in (None, cy): v = False; break
        if v is None: return r
        return v if r[0] == "b" else (not v)
    def assume(self, c):
        """returns a new Ctx, or None when the fact contradicts what is known"""
        n = self.normc(c)
        if n is True: return self
        if n is False: return None
        o = self.copy()
        o.lits = self.lits + (n,)
        return o._add(n)
    def _add(o, n):
        k = n[0]
        if k in ("b", "nb"):
            d = dict(o.bools); d[(n[1], n[2])] = (k == "b"); o.bools = d
            for p in ("b", "nb"):
                a = Atom.tab.get(("b2i", ((p, n[1], n[2]),)))
                if a is not None and a not in o.sub:
                    o = o._solve(sub(A(a), K(int(p == k))))
                    if o is None: return None
            return o
        d = n[1]
        if k == "eq":
            return o._solve(d)
        if k == "ne":
            o.nes = o.nes + (d,)
            return o._tighten(d)
        # ge
        if len(d.t) > 1 and scale(d, -1) in o.ges: return o._solve(d)
        if not o._addge(d): return None
        for e in o.nes:
            if any(a in asup_set(d) for a, _ in e.t):
                r = o._tighten1(e)
                if r is False: return None
        return o if o._feas(d) else None
    def _tighten(o, e):
        r = o._tighten1(e)
        if r is False: return None
        return o if o._feas(e) else None
    def _tighten1(o, e):
        lo, hi = rng(e, o.iv)
        if lo == 0:
            return o._addge(sub(e, ONE))
        if hi == 0:
            return o._addge(sub(scale(e, -1), ONE))
        if len(e.t) > 1:
            m = scale(e, -1)
            if e in o.ges: return o._addge(sub(e, ONE)) and (m not in o.ges)
            if m in o.ges: return o._addge(sub(m, ONE))
        return True
    def _addge(o, d):
        if len(d.t) == 1:
            a, k = d.t[0]
            if a in o.sub:
                c = ge(subst(d, o.sub))
                if c is False: return False
                return True if c is True else o._addge(c[1])
            l, h = o.iv.get(a, (a.lo, a.hi))
            if k > 0: l2 = -(d.c // k) if True else 0; l = max(l, -(d.c // k))
            else: h = min(h, d.c // (-k))
            if l > h: return False
            iv = dict(o.iv); iv[a] = (l, h); o.iv = iv
            if l == h: return o._solve(sub(A(a), K(l))) is not None
            # push bounds through divisions of this atom
            return True
        o.ges = o.ges + (d,)
        return True
    def _solve(o, d):
        """d == 0"""
        a, val = o._pivot(d)
        # values of terms that change with the atom now solved hold of the terms they become
        moved = [] if a is None else [(b, v) for b, v in o.sub.items() if b is not a and a in asup(b)]
        if o._solve0(d, a) is None: return None
        for b, v in moved:
            nb = subst(A(b), {a: val})
            c = o.normc(eq(o.norm(sub(nb, v)))) if nb != A(b) else True
            if c is False: return None
            if c is not True and (c[0] != "eq" or o._solve(c[1]) is None): return None
        return o
    def _pivot(o, d):
        best = None
        for a, k in d.t:
            if abs(k) == 1 and not any(a in asup(b) for b, _ in d.t if b is not a):
                p = (0 if a.kind in ("by", "sym", "bit", "kap") else 1 if a.kind != "div" else 2, -a.id)
                if a.kind == "len": p = (-1, -a.id)
                if a.kind == "lv": p = (-2, -a.id)
                if best is None or p < best[0]: best = (p, a, k)
        if best is None: return None, None
        _, a, k = best
        return a, scale(sub(d, Lin(0, ((a, k),))), -k)
    def _solve0(o, d, a):
        if a is None:
            if not o._addge(d) or not o._addge(scale(d, -1)): return None
            # a residue argument: gcd of coefficients must divide the constant (already normalised)
            return o if o._feas(d) else None
        k = dict(d.t)[a]
        val = scale(sub(d, Lin(0, ((a, k),))), -k)
        lo, hi = o.iv.get(a, (a.lo, a.hi))
        m = {a: val}
        # substitute everywhere
        nsub = {}
        for b, v in o.sub.items():
            nsub[b] = subst(v, m) if a in support(v) else v
        nsub[a] = val
        o.sub = nsub; o._n = {}
        ges = []; nes = []
        oldg = o.ges; oldn = o.nes; oldiv = o.iv; oldb = o.bools
        o.ges = (); o.nes = (); o.iv = {}; o.bools = {}
        for b, (l, h) in oldiv.items():
            if b is a or a in asup(b):
                nb = subst(A(b), m)
                for c in (ge(nb, K(l)) if l != -INF else True, ge(K(h), nb) if h != INF else True):
                    if c is False: return None
                    if c is not True and not o._addge(c[1]): return None
            else:
                l0, h0 = o.iv.get(b, (l, h))
                o.iv[b] = (max(l, l0), min(h, h0))
        if lo != -INF or hi != INF:
            for c in (ge(val, K(lo)) if lo != -INF else True, ge(K(hi), val) if hi != INF else True):
                if c is False: return None
                if c is not True and not o._addge(c[1]): return None
        for g in oldg:
            if a in support(g):
                c = ge(subst(g, m))
                if c is False: return None
                if c is not True:
                    if not o._addge(c[1]): return None
                    ges.append(c[1])
            else: o.ges = o.ges + (g,)
        for g in oldn:
            if a in support(g):
                c = ne(subst(g, m))
                if c is False: return None
                if c is not True: o.nes = o.nes + (c[1],)
            else: o.nes = o.nes + (g,)
        for (nm, ar), v in oldb.items():
            if a in support(ar):
                c = rebuild_bool(nm, subst(ar, m))
                if c is True or c is False:
                    if c is not v: return None
                    continue
                if c[0] in ("ge", "eq", "ne"):
                    o2 = o.assume(c if v else neg(c))
                    if o2 is None: return None
                    o.sub = o2.sub; o.ges = o2.ges; o.nes = o2.nes; o.iv = o2.iv; o.bools = o2.bools
                    continue
                if c[0] == "nb": v = not v
                if o.bools.get((c[1], c[2]), v) != v: return None
                o.bools[(c[1], c[2])] = v
            else: o.bools[(nm, ar)] = v
        for e in o.nes:
            lo, hi = rng(e, o.iv)
            if (lo == 0 or hi == 0) and not o._tighten1(e): return None
        val = o.norm(val)
        for again in range(4):
            # atoms determined while the facts were rebuilt
            old = [g for g in o.ges if any(b in o.sub for b in support(g))]
            oldn = [g for g in o.nes if any(b in o.sub for b in support(g))]
            if not old and not oldn: break
            o.ges = tuple(g for g in o.ges if g not in old); o.nes = tuple(g for g in o.nes if g not in oldn)
            for g, f in [(g, ge) for g in old] + [(g, ne) for g in oldn]:
                c = f(o.norm(g))
                if c is False: return None
                if c is True: continue
                if f is ne: o.nes = o.nes + (c[1],)
                elif not o._addge(c[1]): return None
                else: ges.append(c[1])
        if not val.t: return o if o._feas(None) else None
        seen = set(asup_set(val))
        if not o._feas(val): return None
        for g in ges:
            if not (asup_set(g) & seen):
                if not o._feas(g): return None
                seen |= asup_set(g)
        return o
    # ---- Fourier-Motzkin on the constraints connected to the atoms of d ----
    def _relevant(o, d):
        """constraints connected to the atoms of d, with what defines quotients and bits"""
        pool = list(o.ges); cons = []
        if d is None: atoms = set(a for g in pool for a, _ in g.t)
        else: atoms = set(a for a, _ in d.t)
        sb = o._subbits()
        todo = list(atoms); done = set()
        while True:
            while todo:
                a = todo.pop()
                if a in done: continue
                done.add(a)
                if a.kind == "div":
                    inner, q = a.args
                    r = sub(inner, Lin(0, ((a, q),)))
                    cons.append(r); cons.append(sub(K(q - 1), r))
                    for b, _ in inner.t:
                        if b not in atoms: atoms.add(b); todo.append(b)
                    continue
                # a value and the bits of it that something is known about
                if a.kind == "bit": s = a.args[0]
                elif a in sb: s = a
                else: continue
                if s in done and ("bits", s) in done: continue
                if s is not a and not (s in atoms or s in o.iv or s in sb or s in o.sub): continue
                done.add(("bits", s))
                e = bits_of(s)
                if e is None: continue
                v = o.norm(A(s)) if not isinstance(s, Lin) else o.norm(s)
                e = sub(v, o.norm(e))
                if not e.t and not e.c: continue
                cons.append(e); cons.append(scale(e, -1))
                l, h = rng(v, o.iv)
                if h != INF and l >= 0:
                    # bits the range determines
                    for i in range(int(s.hi).bit_length() - 1, -1, -1):
                        if l >> i != h >> i: break
                        b = o.norm(A(atom("bit", (s, i), 0, 1)))
                        if b.const is None: x = sub(b, K(l >> i & 1)); cons.append(x); cons.append(scale(x, -1))
                for b, _ in e.t:
                    if b not in atoms: atoms.add(b); todo.append(b)
            rest = []
            for g in pool:
                if any(a in atoms for a, _ in g.t):
                    cons.append(g)
                    for a, _ in g.t:
                        if a not in atoms: atoms.add(a); todo.append(a)
                else: rest.append(g)
            pool = rest
            if not todo:
                # bits seen before their value
                for a in list(atoms):
                    if a.kind == "bit" and a.args[0] in atoms and ("bits", a.args[0]) not in done: done.discard(a); todo.append(a)
                if not todo: break
        return cons, atoms
    def _subbits(o):
        r = o._sb
        if r is None or r[0] is not o.sub or r[2] is not o.ges or r[3] is not o.iv:
            x = {a.args[0] for a in o.sub if a.kind == "bit"}
            x |= {a.args[0] for a in o.iv if a.kind == "bit"}
            for g in o.ges: x |= {a.args[0] for a, _ in g.t if a.kind == "bit"}
            r = o._sb = (o.sub, x, o.ges, o.iv)
        return r[1]
    def _feas(o, d):
        cons, atoms = o._relevant(d)
        if len(cons) <= 1 and not any(a.kind == "div" for a in atoms): 
            for g in cons:
                lo, hi = rng(g, o.iv)
                if hi < 0: return False
            return True
        return fm_feasible(cons, atoms, o.iv)
    def entails(self, c):
        n = self.normc(c)
        if n is True: return True
        if n is False: return False
        return self.assume(neg(n)) is None
    def decide(self, c):
        """True / False / None"""
        n = self.normc(c)
        if n is True or n is False: return n
        if n[0] in ("b", "nb"): return None
        if self.assume(neg(n)) is None: return True
        if self.assume(n) is None: return False
        return None

def asup_set(d): return {a for a, _ in d.t}

_FM = {}
TICK = [lambda: None]
def fm_feasible(cons, atoms, iv):
    bnd = []
    for a in atoms:
        l, h = a.lo, a.hi
        r = iv.get(a)
        if r is not None: l = max(l, r[0]); h = min(h, r[1])
        if l > h: return False
        bnd.append((a.id, l, h))
    key = (frozenset(cons), tuple(sorted(bnd)))
    v = _FM.get(key)
    if v is None:
        if len(_FM) > 200000: _FM.clear()
        TICK[0]()
        v = _FM[key] = _fm(cons, bnd)
    return v

def _fm(cons, bnd):
    lo = {}; hi = {}
    for a, l, h in bnd: lo[a] = l; hi[a] = h
    sysm = {}
    for g in cons:
        if not g.t:
            if g.c < 0: return False
            continue
        addcon(sysm, g.c, tuple((a.id, k) for a, k in g.t))
    if len(sysm) > 160: return True
    for rnd in range(64):
        # bound propagation
        for prop in range(4):
            ch = False
            for t, c in list(sysm.items()):
                mx = c; inf = 0; ia = None
                mn = c
                for a, k in t:
                    if k > 0: b = hi[a]; l = lo[a]
                    else: b = lo[a]; l = hi[a]
                    if b == INF or b == -INF: inf += 1; ia = a
                    else: mx += k * b
                    mn = mn + k * l if not (l == INF or l == -INF) else -INF
                if inf == 0 and mx < 0: return False
                if mn >= 0: del sysm[t]; continue
                if inf > 1: continue
                for a, k in t:
                    if inf == 1 and a != ia: continue
                    # k*a >= -(mx - contribution of a)
                    if inf == 1: rest = mx
                    else: rest = mx - k * (hi[a] if k > 0 else lo[a])
                    if k > 0:
                        nb = -(rest // k)
                        if nb > lo[a]: lo[a] = nb; ch = True
                    else:
                        nb = rest // (-k)
                        if nb < hi[a]: hi[a] = nb; ch = True
                    if lo[a] > hi[a]: return False
            if not ch: break
        if not sysm: return True
        # atoms of one constraint only (and fixed atoms) are replaced by their best value
        occ = {}
        for t in sysm:
            for a, k in t: occ[a] = occ.get(a, 0) + 1
        nxt = {}; changed = False
        for t, c in sysm.items():
            keep = []; c2 = c; drop = False
            for a, k in t:
                if occ[a] == 1 or lo[a] == hi[a]:
                    b = hi[a] if k > 0 else lo[a]
                    if b == INF or b == -INF: drop = True; break
                    c2 += k * b; changed = True
                else: keep.append((a, k))
            if drop: changed = True; continue
            if not keep:
                if c2 < 0: return False
                continue
            addcon(nxt, c2, tuple(keep))
        sysm = nxt
        if changed: continue
        # eliminate one atom
        cnt = {}
        for t in sysm:
            for a, k in t:
                p = cnt.setdefault(a, [0, 0]); p[0 if k > 0 else 1] += 1
        best = None
        for a, (p, n) in cnt.items():
            p2 = p + (lo[a] != -INF); n2 = n + (hi[a] != INF)
            w = p2 * n2 - p - n
            if best is None or w < best[0]: best = (w, a)
        a = best[1]
        pos = []; negs = []; rest = {}
        for t, c in sysm.items():
            k = 0
            for b, kk in t:
                if b == a: k = kk; break
            if k > 0: pos.append((k, t, c))
            elif k < 0: negs.append((-k, t, c))
            else: addcon(rest, c, t)
        if lo[a] != -INF: pos.append((1, ((a, 1),), -lo[a]))
        if hi[a] != INF: negs.append((1, ((a, -1),), hi[a]))
        if len(pos) * len(negs) + len(rest) > FM_MAX: return True
        for kp, tp, cp in pos:
            for kn, tn, cn in negs:
                d = {}
                for b, k in tp: d[b] = k * kn
                for b, k in tn:
                    v = d.get(b, 0) + k * kp
                    if v: d[b] = v
                    else: d.pop(b, None)
                d.pop(a, None)
                c = cp * kn + cn * kp
                if not d:
                    if c < 0: return False
                    continue
                addcon(rest, c, tuple(sorted(d.items())))
        if len(rest) > FM_MAX: return True
        sysm = rest
    return True

def addcon(s, c, t):
    g = 0
    for a, k in t: g = gcd(g, abs(k))
    if g > 1:
        c = c // g; t = tuple((a, k // g) for a, k in t)
    o = s.get(t)
    if o is None or c < o: s[t] = c

def tight(d):
    if not d.t: return None if d.c >= 0 else False
    g = 0
    for a, k in d.t: g = gcd(g, abs(k))
    if g > 1: d = Lin(d.c // g, tuple((a, k // g) for a, k in d.t))
    return d
