"""Loop summaries: variant leaves by fixpoint, induction variables, accumulators, inductive bounds."""
from terms import *
import terms, seqs
from seqs import slen, mkseq, mkgen, mkbgen, Seq
from model import Unsupported

class Leaf:
    __slots__ = ("cell", "proj", "kind", "idx", "ty", "init", "ph", "step", "mode", "atom", "elems", "ety", "scat", "final")
    def __repr__(self): return "leaf%d %s%s %s/%s init=%s" % (self.idx, self.cell, list(self.proj), self.kind, self.mode, show(self.init)[:60])

class LoopSum:
    def __init__(self): self.term = None; self.bound = None; self.invs = []
    def describe(self):
        r = ["loop %d in %s term=%s bound=%s" % (self.id, self.site, self.term, show(self.bound) if self.bound is not None else None)]
        for l in self.leaves: r.append("  " + repr(l))
        for i in self.invs: r.append("  inv " + show_c(i))
        for b in self.backs: r.append("  back if %s -> %s" % (" & ".join(show_c(c) for c in b[0])[:300], {l.idx: show(v)[:120] for l, v in b[1]}))
        for e in self.exits: r.append("  exit %s if %s" % (e[0], " & ".join(show_c(c) for c in e[1])[:300]))
        return "\n".join(r)

def lit_delta(base, st):
    b = base.ctx.lits
    return st.ctx.lits[len(b):]

class Loops:
    def __init__(self, I):
        self.I = I
        self.trace = False
    def join_returns(self, f, r):
        return r
    def mir_loop(self, fr, f, lp, st):
        I = self.I
        cfg = I.P.cfg(f["id"])
        live = cfg.live[lp.header]
        def clean(s):
            for k in [k for k in s.cells if k[0] == fr and k[1] not in live and k[1] not in cfg.addr]:
                del s.cells[k]
        def step(s, fl):
            outs = I.run(fr, f, lp.header, s, lp, fl)
            for t, _, s2 in outs:
                if t == "back": clean(s2)
            return outs
        st = st.fork(); clean(st)
        outs = self.generic(step, st, I.site() + ":" + self.hname(f, lp))
        return [(tag, s) for tag, s in outs]
    def hname(self, f, lp):
        heads = sorted(self.I.P.cfg(f["id"]).loops)
        return "loop%d" % heads.index(lp.header) if f["local"] else f["path"].split("::")[-1]
    # ------------------------------------------------------------------
    def generic(self, step, st0, site):
        """step(state, flags) -> [('back',None,st)|('exit',tag,st)]; returns [(tag, st)]"""
        I = self.I
        states = [st0]; exits = []; ok = True
        if I.unroll is not None: return self.unrolled(step, st0, site)
        mark = (len(I.panics), len(I.allocs), len(I.loops))
        for it in range(I.concrete or 72):
            nxt = []
            for s in states:
                fl = {}
                outs = step(s.fork(), fl)
                if (fl.get("sym") or fl.get("n", 0) > 1) and not I.concrete:
                    ok = False; break
                for t, tag, s2 in outs:
                    if t == "back": nxt.append(s2)
                    else: exits.append((tag, s2))
            if not ok: break
            states = nxt
            if not states: return exits
            if len(states) > (I.concrete_states if I.concrete else 16): ok = False; break
        # summarise
        del I.panics[mark[0]:]; del I.allocs[mark[1]:]; del I.loops[mark[2]:]
        return self.summarise(step, st0, site)
    def unrolled(self, step, st0, site):
        """all executions with at most I.unroll undetermined repetitions"""
        I = self.I
        states = [st0]; exits = []; n = 0
        for it in range(600):
            nxt = []; sym = False
            for s in states:
                fl = {}
                outs = step(s.fork(), fl)
                if fl.get("sym") or fl.get("n", 0) > 1: sym = True
                for t, tag, s2 in outs:
                    if t == "back": nxt.append(s2)
                    else: exits.append((tag, s2))
            n += sym
            if n > I.unroll: return exits
            states = nxt
            if not states: return exits
            if len(states) > 600: raise Unsupported("too many cases in unrolled " + site)
        raise Unsupported("long loop in " + site)
    def typeof(self, cell, proj):
        P = self.I.P
        if cell[0] == "n": t = self.I.celltype.get(cell)
        else: t = P.fns and self.I.frames[cell[0]]["locals"][cell[1]][0]
        for p in proj:
            if t is None: return None
            T = P.types[t]
            k = p[0]
            if k == "f":
                if T["k"] == "tuple": t = T["ts"][p[1]]
                elif T["k"] == "adt" and T.get("variants"):
                    t = T["variants"][p[2] if len(p) > 2 and p[2] is not None else 0]["fields"][p[1]][1]
                else: t = None
            elif k == "ix": t = P.elemty(t)
            elif k == "sub": pass
            elif k == "a":
                if T["k"] == "adt" and T["path"].endswith("Cursor"): t = T["args"][0] if p[1] == 0 else P.byname.get("u64")
                else: t = None
            else: t = None
            if t is not None and P.types[t]["k"] == "ref" and k == "a": t = P.types[t]["t"]
        return t
    def diff(self, a, b, cell, proj, out):
        if a is b or a == b: return
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            out.append((cell, proj, "dead")); return
        if isinstance(a, Lin) and isinstance(b, Lin): out.append((cell, proj, "int")); return
        if isinstance(a, Bo) and isinstance(b, Bo): out.append((cell, proj, "bool")); return
        if isinstance(a, Seq) and isinstance(b, Seq): out.append((cell, proj, "seq")); return
        if isinstance(a, SymAdt) and isinstance(b, Adt) and len(self.I.P.variants(a.ty)) == 1:
            a = self.I.expand(a)
        if isinstance(b, SymAdt) and isinstance(a, Adt) and len(self.I.P.variants(b.ty)) == 1:
            b = self.I.expand(b)
        if isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f):
            enum = self.I.P.types[a.ty].get("variants") and len(self.I.P.variants(a.ty)) > 1
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.diff(x, y, cell, proj + ((("f", i, a.var) if enum else ("f", i)),), out)
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.f) == len(b.f):
            for i, (x, y) in enumerate(zip(a.f, b.f)): self.diff(x, y, cell, proj + (("f", i),), out)
            return
        if isinstance(a, Op) and isinstance(b, Op) and a.n == b.n == "map":
            if a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and all(x[0] == y[0] for x, y in zip(a.a[1], b.a[1])):
                for (k, x), (_, y) in zip(a.a[1], b.a[1]): self.diff(x, y, cell, proj + (("mapval", k),), out)
                return
            out.append((cell, proj, "map")); return
        if isinstance(a, Op) and isinstance(b, Op) and a.n == b.n and len(a.a) == len(b.a):
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                if x == y: continue
                if isinstance(x, (Lin, V)) and isinstance(y, (Lin, V)): self.diff(x, y, cell, proj + (("a", i),), out)
                else: out.append((cell, proj, "val")); return
            return
        if isinstance(a, Clos) and isinstance(b, Clos) and a.inst == b.inst:
            for i, (x, y) in enumerate(zip(a.ups, b.ups)): self.diff(x, y, cell, proj + (("up", i),), out)
            return
        out.append((cell, proj, "val"))
    def placeholder(self, lid, lf):
        P = self.I.P
        if lf.kind == "int":
            lo, hi = 0, (1 << 64) - 1
            if lf.ty is not None and P.types[lf.ty]["k"] in ("int", "char"): lo, hi = P.intrange(lf.ty)
            elif lf.ty is None: lo, hi = 0, (1 << 63) - 1
            lf.atom = atom("lv", (lid, lf.idx), lo, hi)
            return A(lf.atom)
        if lf.kind == "bool": return Bo(("b", "lvb", (lid, lf.idx)))
        if lf.kind == "seq":
            lf.atom = atom("lv", (lid, lf.idx, "len"), 0, (1 << 63) - 1)
            return Seq((("app", "acc", (lid, lf.idx), A(lf.atom), lf.ety),))
        if lf.kind == "map": return Op("map", ("lv", lid, lf.idx), ())
        if lf.kind == "val":
            if lf.ty is None: return Op("havoc", lid, lf.idx)
            return P.mksym(lf.ty, ("lv", lid, lf.idx))
        raise Unsupported(lf.kind)
    def read(self, st, lf):
        return self.I.read(st, lf.cell, lf.proj)
    def head(self, st0, V, dead, vals=None, log=None):
        h = st0.fork()
        for c in dead: h.cells.pop(c, None)
        for lf in V:
            v = vals.get(lf.idx, lf.ph) if vals else lf.ph
            self.I.store(h, lf.cell, lf.proj, v)
        if log is not None: h.log = h.log + log
        return h
    def summarise(self, step, st0, site):
        I = self.I
        I.nloop += 1; lid = I.nloop
        V = []; keys = {}; dead = set(); log = None
        I.quiet += 1
        nl = len(I.loops)
        try:
            for rnd in range(14):
                h = self.head(st0, V, dead, log=log)
                outs = step(h.fork(), None)
                backs = [s for t, _, s in outs if t == "back"]
                ch = False
                for s in backs:
                    if log is None and s.log != h.log: log = (("LOOP", lid),); ch = True
                    ds = []
                    for c, v in h.cells.items():
                        if c not in s.cells:
                            dead.add(c); ch = True; continue
                        self.diff(v, s.cells[c], c, (), ds)
                    for c, p, k in ds:
                        if k == "dead":
                            if not p: dead.add(c); ch = True; continue
                            k = "val"
                        if any((c, p[:i]) in keys for i in range(len(p) + 1)):
                            pk = next((c, p[:i]) for i in range(len(p) + 1) if (c, p[:i]) in keys)
                            lf = keys[pk]
                            if lf.kind != k and pk == (c, p) and lf.kind != "val":
                                lf.kind = "val"; lf.ph = self.placeholder(lid, lf); ch = True
                            continue
                        # drop leaves below a new, shallower leaf
                        for kk in [kk for kk in keys if kk[0] == c and kk[1][:len(p)] == p]:
                            V.remove(keys.pop(kk))
                        lf = Leaf(); lf.cell = c; lf.proj = p; lf.kind = k; lf.idx = len(keys) + 100 * rnd
                        lf.ty = self.typeof(c, p); lf.ety = None; lf.mode = None; lf.step = None; lf.atom = None
                        lf.elems = None; lf.scat = None; lf.final = None
                        if k == "seq" and lf.ty is not None and I.P.is_seq(lf.ty): lf.ety = I.P.ety(I.P.elemty(lf.ty))
                        lf.init = I.read(st0, c, p)
                        lf.ph = self.placeholder(lid, lf)
                        keys[(c, p)] = lf; V.append(lf); ch = True
                V = [l for l in V if l.cell not in dead]
                for kk in [kk for kk in keys if kk[0] in dead]: keys.pop(kk)
                if not ch: break
            else: raise Unsupported("loop without fixpoint in " + site)
            if not backs:
                # never iterates twice: plain branching
                I.quiet -= 1
                try:
                    return [(tag, s) for t, tag, s in step(st0.fork(), None) if t == "exit"]
                finally: I.quiet += 1
            kap = atom("kap", (lid,), 0, (1 << 63) - 1)
            phs = {l.atom for l in V if l.atom is not None}
            # ---- classification
            vals = {}
            for lf in V:
                news = [self.read(s, lf) for s in backs]
                if lf.kind == "int":
                    d = {sub(n, A(lf.atom)) for n in news}
                    if len(d) == 1 and self.invariant(next(iter(d)), lid):
                        lf.mode = "affine"; lf.step = next(iter(d))
                        vals[lf.idx] = add(lf.init, mul(A(kap), lf.step))
                    else: lf.mode = "rec"
                elif lf.kind == "seq":
                    self.classify_seq(lf, news, lid)
                    if lf.mode == "acc":
                        n = add(slen(lf.init), scale(A(kap), lf.step))
                        vals[lf.idx] = mkseq(lf.init.s + (("app", "acc", (lid, lf.idx), scale(A(kap), lf.step), lf.ety),))
                    elif lf.mode == "scat":
                        vals[lf.idx] = Seq((("app", "acc", (lid, lf.idx), slen(lf.init), lf.ety),))
                else: lf.mode = "rec"
            # ---- guard bound of the counter, and inductive bounds of the other leaves
            invs = []; bound = None
            for rnd in range(3):
                h = self.head(st0, V, dead, vals, log)
                outs = step(h.fork(), None)
                backs = [s for t, _, s in outs if t == "back"]
                bound = self.find_bound(h, backs, kap, lid)
                break
            pre = [(st0, False)]
            if bound is not None and not st0.ctx.entails(ge(bound)):
                t, f = st0.split(ge(bound))
                pre = ([(t, False)] if t is not None else []) + ([(f, True)] if f is not None else [])
        finally:
            I.quiet -= 1
        del I.loops[nl:]
        result = []
        for s0, zero in pre:
            if zero:
                for t, tag, s in step(s0.fork(), None):
                    if t == "exit": result.append((tag, s))
                    else: raise Unsupported("loop bound in " + site)
                continue
            result += self.finish(step, s0, V, dead, vals, log, kap, bound, lid, site)
        return result
    def finish(self, step, st0, V, dead, vals, log, kap, bound, lid, site):
        I = self.I
        recs = [l for l in V if l.mode == "rec" and l.kind == "int"] 
        seqrecs = [l for l in V if l.mode == "rec" and l.kind == "seq"]
        cands = []
        if bound is not None: fixed = [ge(bound, A(kap))]
        else: fixed = []
        nl = len(I.loops)
        I.quiet += 1
        try:
            if recs or seqrecs or bound is None:
                cands = self.candidates(st0, V, recs, seqrecs, kap, step, dead, vals, log, fixed)
                for rnd in range(6):
                    if not cands: break
                    h = self.mkhead(st0, V, dead, vals, log, fixed + [c for c, _ in cands])
                    if h is None: break
                    outs = step(h.fork(), None)
                    backs = [s for t, _, s in outs if t == "back"]
                    keep = []
                    for c, nxt in cands:
                        if all(s.ctx.entails(nxt(self, s)) for s in backs): keep.append((c, nxt))
                    if len(keep) == len(cands): break
                    cands = keep
                else: cands = []
        finally:
            I.quiet -= 1
        del I.loops[nl:]
        invs = fixed + [c for c, _ in cands]
        h = self.mkhead(st0, V, dead, vals, log, invs)
        if h is None: return []
        outs = step(h.fork(), None)
        L = LoopSum(); L.id = lid; L.kap = kap; L.leaves = V; L.bound = bound; L.invs = invs; L.site = site; L.st0 = st0
        L.head = h
        L.backs = []; L.exits = []
        backs = [s for t, _, s in outs if t == "back"]
        for s in backs:
            L.backs.append((lit_delta(h, s), [(l, self.read(s, l)) for l in V], s.log[len(h.log):], s))
        L.vals = vals
        self.termination(L, h, backs)
        self.closed_forms(L, V, kap, lid)
        res = []
        finals = {l.idx: l for l in V if l.final is not None}
        L.finals = finals
        for t, tag, s in outs:
            if t != "exit": continue
            delta = lit_delta(h, s)
            if bound is not None and s.ctx.entails(ge(A(kap), bound)):
                s2 = s.assume(eq(A(kap), bound))
                if s2 is None: continue
                s = s2 if s2 is not s else s.fork()
            if finals:
                self.replace_acc(s, lid, finals, kap)
            L.exits.append((tag, delta, s))
            k = len(h.notes)
            s.notes = s.notes[:k] + (("loop", L, len(L.exits) - 1),) + s.notes[k:]
            res.append((tag, s))
        if not I.quiet or True: I.loops.append(L)
        if self.trace and not I.quiet: print(L.describe())
        return res
    def mkhead(self, st0, V, dead, vals, log, invs):
        h = self.head(st0, V, dead, vals, log)
        for c in invs:
            h = h.assume(c)
            if h is None: return None
        return h
    def invariant(self, x, lid):
        for a in support(x):
            if a.kind == "lv" and a.args[0] >= lid: return False
            if a.kind == "kap" and a.args[0] != "lv" and a.args[0] >= lid: return False
            if a.kind == "fresh": return False
        return True
    def classify_seq(self, lf, news, lid):
        key = (lid, lf.idx)
        ks = set()
        for n in news:
            if n.s and n.s[0][0] == "app" and n.s[0][1] == "acc" and n.s[0][2] == key:
                rest = Seq(n.s[1:])
                if any(s[0] == "app" and s[1] == "acc" and s[2] == key for s in rest.s): lf.mode = "rec"; return
                c = slen(rest)
                if c.const is None: lf.mode = "rec"; return
                ks.add(c.const)
            else:
                if self.is_scatter(n, key): ks.add("s"); continue
                lf.mode = "rec"; return
        if ks <= {"s", 0}: lf.mode = "scat"; return
        if len(ks) == 1 and 0 not in ks:
            lf.mode = "acc"; lf.step = K(ks.pop()).c; return
        lf.mode = "rec"
    def is_scatter(self, q, key):
        while len(q.s) == 1 and q.s[0][0] == "upd": q = q.s[0][1]
        return len(q.s) == 1 and q.s[0][0] == "app" and q.s[0][1] == "acc" and q.s[0][2] == key
    def find_bound(self, h, backs, kap, lid):
        """n with: every back edge implies kap+1 <= n (n loop invariant)"""
        if not backs: return None
        cand = []
        for s in backs:
            for c in lit_delta(h, s):
                if c[0] == "ge":
                    k = dict(c[1].t).get(kap)
                    if k is not None and k < 0:
                        rest = add(c[1], A(kap), -k)
                        if not self.invariant(rest, lid): continue
                        # rest + k*kap >= 0  ->  kap <= rest/(-k)
                        n = add(rest, K(1)) if k == -1 else add(fdiv(rest, -k), K(1))
                        if n not in cand: cand.append(n)
                elif c[0] == "ne":
                    k = dict(c[1].t).get(kap)
                    if k in (1, -1):
                        rest = scale(sub(c[1], Lin(0, ((kap, k),))), -k)
                        # kap != rest on every back edge: bounded by rest when rest >= 0
                        if self.invariant(rest, lid) and rest not in cand: cand.append(rest)
        best = []
        for n in cand:
            hs = h.assume(ge(n, A(kap)))
            ok = True
            for s in backs:
                s2 = s.ctx.assume(ge(n, A(kap)))
                if s2 is None: continue
                if not s2.entails(ge(n, add(A(kap), ONE))): ok = False; break
            if ok: best.append(n)
        if not best: return None
        # prefer the tightest
        for n in best:
            if all(h.ctx.entails(ge(m, n)) for m in best): return n
        return best[0]
    def candidates(self, st0, V, recs, seqrecs, kap, step, dead, vals, log, fixed):
        h = self.mkhead(st0, V, dead, vals, log, fixed)
        if h is None: return []
        outs = step(h.fork(), None)
        backs = [s for t, _, s in outs if t == "back"]
        kx = A(kap)
        cs = []
        def addc(c, nxt):
            if c is True or c is False: return
            if any(c == d for d, _ in cs): return
            # must hold initially
            m = {l.atom: (l.init if l.kind == "int" else slen(l.init)) for l in V if l.atom is not None and l.mode == "rec"}
            m[kap] = ZERO
            if not st0.ctx.entails(subst(c, m)): return
            cs.append((c, nxt))
        exprs = []      # (expression over leaves, value after the iteration)
        for l in recs:
            exprs.append((A(l.atom), l.init, (lambda S, s, l=l: S.read(s, l))))
        for l in seqrecs:
            exprs.append((A(l.atom), slen(l.init), (lambda S, s, l=l: slen(S.read(s, l)))))
        for l in V:
            if l.mode == "affine" : exprs.append((vals[l.idx], l.init, (lambda S, s, l=l: S.read(s, l))))
        nrec = len(recs) + len(seqrecs)
        ups = set()
        for s in backs:
            for c in lit_delta(h, s):
                if c[0] in ("ge", "eq"):
                    for e, i, nx in exprs[:nrec]:
                        nv = s.ctx.norm(nx(self, s))
                        for sign in ((1,) if c[0] == "ge" else (1, -1)):
                            b = add(scale(c[1], sign), nv)
                            if self.invariant(b, min(a.args[0] for a in [l.atom for l in V if l.atom is not None] if a.kind == "lv") if False else kap.args[0]): ups.add(b)
        for a in self.len_atoms(st0, backs): ups.add(A(a))
        for j, (e, i, nx) in enumerate(exprs[:nrec]):
            addc(ge(e, i), lambda S, s, nx=nx, i=i: ge(nx(S, s), i))
            addc(ge(i, e), lambda S, s, nx=nx, i=i: ge(i, nx(S, s)))
            addc(ge(e, add(i, kx)), lambda S, s, nx=nx, i=i: ge(nx(S, s), add(i, add(kx, ONE))))
            addc(ge(add(i, kx), e), lambda S, s, nx=nx, i=i: ge(add(i, add(kx, ONE)), nx(S, s)))
            for u in ups:
                addc(ge(u, e), lambda S, s, nx=nx, u=u: ge(u, nx(S, s)))
            for j2, (e2, i2, nx2) in enumerate(exprs):
                if j2 == j: continue
                addc(ge(e2, e), lambda S, s, nx=nx, nx2=nx2: ge(nx2(S, s), nx(S, s)))
                addc(ge(sub(e2, ONE), e), lambda S, s, nx=nx, nx2=nx2: ge(sub(nx2(S, s), ONE), nx(S, s)))
                if j2 >= nrec: addc(ge(e, e2), lambda S, s, nx=nx, nx2=nx2: ge(nx(S, s), nx2(S, s)))
        return cs
    def len_atoms(self, st0, backs):
        r = set()
        for s in [st0] + backs[:3]:
            for c in s.ctx.lits:
                if isinstance(c, tuple) and c[0] in ("ge", "eq", "ne"):
                    for a, k in c[1].t:
                        if a.kind == "len": r.add(a)
        return sorted(r)[:8]
    def termination(self, L, h, backs):
        """a ranking argument for the loop, or None"""
        if L.bound is not None: L.term = "counter bounded by " + show(L.bound)[:60]; return
        net = bool(backs)
        for s in backs:
            if not any(e[0] in ("read", "recv") for e in flat_log(s.log[len(h.log):])): net = False
        if net: L.term = "each repetition consumes input from the peer"; return
        ints = []
        for l in L.leaves:
            if l.kind == "int":
                cur = self.read(h, l)
                ints.append((cur, lambda s, l=l: self.read(s, l)))
            elif l.kind == "seq":
                ints.append((slen(self.read(h, l)), lambda s, l=l: slen(self.read(s, l))))
        # positions of cursors also sit inside nested leaves; they are ints above
        exprs = list(ints)
        for i, (a, na) in enumerate(ints):
            for j, (b, nb) in enumerate(ints):
                if i != j: exprs.append((sub(a, b), lambda s, na=na, nb=nb: sub(na(s), nb(s))))
        ups = [A(a) for a in self.len_atoms(h, backs)]
        for e, ne_ in exprs:
            # decreasing and bounded below by 0 (or a constant)
            if all(s.ctx.entails(ge(sub(e, ONE), ne_(s))) for s in backs) and h_low(h, e): L.term = "decreasing measure " + show(e)[:60]; return
            if all(s.ctx.entails(ge(ne_(s), add(e, ONE))) for s in backs):
                for u in ups:
                    if all(s.ctx.entails(ge(u, e)) for s in backs): L.term = "position %s grows up to %s" % (show(e)[:40], show(u)[:40]); return
        # a growing position bounded on the back edge by an invariant amount
        L.term = None
    def closed_forms(self, L, V, kap, lid):
        for l in V:
            if l.mode == "acc":
                elems = []
                for lits, vs, lg, s in L.backs:
                    v = dict((x.idx, y) for x, y in vs)[l.idx]
                    tail = [seg for seg in v.s if not (seg[0] == "app" and seg[1] == "acc" and seg[2] == (lid, l.idx))]
                    n0 = len(l.init.s)
                    # the value is init ++ acc ++ pushed
                    j = max(i for i, seg in enumerate(v.s) if seg[0] == "app" and seg[1] == "acc" and seg[2] == (lid, l.idx))
                    elems.append(Seq(v.s[j + 1:]))
                l.elems = elems
                from dom import Ctx
                c = Ctx()
                parts = []
                for q in elems:
                    parts.append(tuple(seqs.index(q, K(i), c, l.ety) for i in range(l.step)))
                if len(set(parts)) == 1: vals = parts[0]
                else:
                    tabs = []
                    for i in range(l.step):
                        rows = {}
                        for (lits, vs, lg, s), p in zip(L.backs, parts):
                            rows.setdefault(p[i], set()).add(tuple(sorted((x for x in lits), key=repr)))
                        tabs.append(Op("case", tuple(sorted(((tuple(sorted(v, key=repr)), k) for k, v in rows.items()), key=repr))) if len(rows) > 1 else next(iter(rows)))
                    vals = tuple(tabs)
                ok = all(self.closed(v, lid, kap) for v in vals) 
                if ok:
                    if l.step == 1: l.final = lambda n, v=vals[0]: mkgen(n, kap, v)
                    else: l.final = lambda n, v=vals, m=l.step: mkbgen(n, m, kap, v)
            elif l.mode == "scat":
                self.scatter(L, l, kap, lid)
    def closed(self, v, lid, kap):
        for a in support(v):
            if a.kind == "lv" and a.args[0] == lid: return False
            if a.kind == "fresh": return False
        return not has_lv(v, lid)
    def scatter(self, L, l, kap, lid):
        """in-place updates at a*kap+y (or a*(n-1-kap)+y) covering every index"""
        n = slen(l.init)
        if L.bound is None: return
        tabs = {}; a = None; desc = None
        rows = []
        for lits, vs, lg, s in L.backs:
            v = dict((x.idx, y) for x, y in vs)[l.idx]
            ups = {}
            q = v
            while q.s[0][0] == "upd":
                ix = q.s[0][2]
                if ix not in ups: ups[ix] = q.s[0][3]
                q = q.s[0][1]
            rows.append((s, ups))
            for ix, val in ups.items():
                k = dict(ix.t).get(kap)
                if k is None: return
                if a is None: a = abs(k); desc = k < 0
                if abs(k) != a or (k < 0) != desc: return
        if a is None or a > 64: return
        base = scale(sub(L.bound, ONE), a) if desc else ZERO
        km = sub(scale(sub(L.bound, ONE), 1), A(kap)) if desc else A(kap)
        out = [None] * a
        for s, ups in rows:
            got = {}
            for ix, val in ups.items():
                y = s.ctx.norm(sub(ix, scale(km, a))) if s.ctx.norm(sub(ix, scale(km, a))).const is not None else sub(ix, scale(km, a))
                if y.const is None or not 0 <= y.const < a: return
                got[y.const] = val
            for y in range(a):
                if y in got:
                    if out[y] is None: out[y] = got[y]
                    elif out[y] != got[y]: return
                else:
                    if not s.ctx.entails(ge(add(scale(km, a), K(y)), n)): return
        if any(o is None for o in out) : return
        if not all(self.closed(o, lid, kap) for o in out): return
        # full coverage at the end: a*bound >= n
        if not L.st0.ctx.entails(ge(scale(L.bound, a), n)): return
        if desc: out = [subst(o, {kap: km}) for o in out]
        L_bound = L.bound
        # only valid at the normal exit (kap == bound)
        l.final = ("full", mkbgen(n, a, kap, tuple(out)) if a > 1 else mkgen(n, kap, out[0]), L.bound)
    def replacer(self, ctx, lid, finals, kap):
        kv = A(kap)
        n = ctx.norm(kv)
        done = n != kv and not any(x is kap for x in support(n))
        def rp(x):
            if isinstance(x, Seq):
                hit = False; segs = []
                for g in x.s:
                    if g[0] == "app" and g[1] == "acc" and g[2][0] == lid and g[2][1] in finals:
                        f = finals[g[2][1]].final
                        if isinstance(f, tuple):
                            if done or ctx.norm(sub(kv, f[2])).const == 0: segs.append(f[1]); hit = True
                            else: segs.append(g)
                        else:
                            segs.append(f(g[3])); hit = True
                    else:
                        r = tuple(rp(e) if isinstance(e, (V, tuple)) else e for e in g)
                        if any(p is not q for p, q in zip(r, g)): hit = True
                        segs.append(r)
                return mkseq(segs) if hit else x
            if isinstance(x, Adt):
                f = [rp(e) for e in x.f]
                return Adt(x.ty, x.var, f) if any(p is not q for p, q in zip(f, x.f)) else x
            if isinstance(x, Tup):
                f = [rp(e) for e in x.f]
                return Tup(f) if any(p is not q for p, q in zip(f, x.f)) else x
            if isinstance(x, RefV):
                v = rp(x.v); return x if v is x.v else RefV(v)
            if isinstance(x, Op):
                f = [rp(e) if isinstance(e, (V, tuple)) else e for e in x.a]
                return Op(x.n, *f) if any(p is not q for p, q in zip(f, x.a)) else x
            if isinstance(x, Clos):
                f = [rp(e) for e in x.ups]
                return Clos(x.inst, f) if any(p is not q for p, q in zip(f, x.ups)) else x
            if isinstance(x, tuple) and x and any(isinstance(e, (V, tuple)) for e in x):
                r = tuple(rp(e) if isinstance(e, (V, tuple)) else e for e in x)
                return r if any(p is not q for p, q in zip(r, x)) else x
            return x
        return rp
    def replace_acc(self, s, lid, finals, kap):
        rp = self.replacer(s.ctx, lid, finals, kap)
        for c in list(s.cells): s.cells[c] = rp(s.cells[c])
        s.log = s.log and tuple(rp(e) if isinstance(e, tuple) and e and e[0] != "LOOP" else e for e in s.log)

def has_lv(v, lid):
    """opaque pieces named after loop `lid`"""
    if isinstance(v, Seq):
        for g in v.s:
            if g[0] == "app" and g[1] == "acc" and g[2][0] == lid: return True
            if any(has_lv(e, lid) for e in g[1:] if isinstance(e, (V, tuple))): return True
        return False
    if isinstance(v, (Adt, Tup)): return any(has_lv(e, lid) for e in v.f)
    if isinstance(v, RefV): return has_lv(v.v, lid)
    if isinstance(v, SymAdt): return has_path(v.path, lid)
    if isinstance(v, Op): return any(has_lv(e, lid) for e in v.a if isinstance(e, (V, tuple)))
    if isinstance(v, Bo): return isinstance(v.c, tuple) and has_lv(v.c, lid)
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] == "lv" and v[1] == lid: return True
        if len(v) == 3 and v[0] in ("b", "nb") and v[1] == "lvb" and v[2][0] == lid: return True
        return any(has_lv(e, lid) for e in v if isinstance(e, (V, tuple)))
    return False
def has_path(p, lid):
    return isinstance(p, tuple) and len(p) >= 2 and p[0] == "lv" and p[1] == lid
def h_low(h, e):
    lo, _ = rng(h.ctx.norm(e), h.ctx.iv)
    return lo != -INF and lo > -(1 << 40) or h.ctx.entails(ge(e))
def flat_log(log): return log
