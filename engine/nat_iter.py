"""Iterators: values are structural (Iter / Range / adapters); consumers run as Python-bodied loops."""
from natives import *
from natives import nat, pat, method
from interp import memory_size
HI63 = (1 << 63) - 1

def range_kind(S, v):
    if isinstance(v, (Adt, SymAdt)):
        p = S.P.types[v.ty].get("path", "")
        if p.startswith("core::ops::range") or p.startswith("core::range"): return p.split("::")[-1]
    return None
@method
def to_iter(S, st, v, ty):
    """into_iter on a value of the given type"""
    T = S.P.types[ty]
    if T["k"] == "ref":
        w = S.deref(st, v)
        inner = T["t"]
        while S.P.types[inner]["k"] == "ref": inner = S.P.types[inner]["t"]
        IT = S.P.types[inner]
        if isinstance(w, Op) and w.n == "map":
            a = IT["args"]
            return S.map_iter(st, w, "iter" if "HashMap" in IT["path"] else "keys", a[0], a[1] if len(a) > 1 else None, True)
        if isinstance(w, Seq):
            if T.get("mut"):
                r = S.mref(st, v); return Op("Iter", "mut", r, ZERO, slen(w), S.P.elemty(inner))
            return Op("Iter", "ref", w, ZERO, slen(w))
        if T.get("mut"): return Op("It.by_ref", S.mref(st, v))
        if isinstance(w, (Adt, SymAdt)) and S.P.types[w.ty].get("path", "").startswith("core::option"):
            raise Unsupported("iteration over an option")
        raise Unsupported("into_iter of " + show(w)[:50])
    if isinstance(v, Seq): return Op("Iter", "val", v, ZERO, slen(v))
    if isinstance(v, Op) and v.n == "map":
        a = T["args"]
        return S.map_iter(st, v, "iter" if "HashMap" in T["path"] else "keys", a[0], a[1] if len(a) > 1 else None, False)
    if isinstance(v, Op) and v.n in ("box",) and isinstance(v.a[0], Seq): return S.to_iter(st, v.a[0], ty)
    if isinstance(v, SymAdt): return S.I.expand(v)
    return v
@method
@nat("core::iter::traits::collect::IntoIterator::into_iter")
def n_intoiter(S, st, c, args, retty, argtys):
    T = S.P.types[argtys[0]]
    if T["k"] == "adt" and T.get("local"): 
        return [(args[0], st)] if argtys[0] == retty else None
    if T["k"] == "adt" and T["path"].startswith("core::option"):
        return S.opt_iter(st, args[0])
    return [(S.to_iter(st, args[0], argtys[0]), st)]
@method
def opt_iter(S, st, v):
    if isinstance(v, Adt): 
        q = els(v.f) if v.var == SOME else Seq(())
        return [(Op("Iter", "val", q, ZERO, slen(q)), st)]
    raise Unsupported("iteration over an option")
@method
@pat(r"core::slice::<impl \[T\]>::(iter|iter_mut|chunks|chunks_exact|windows|rchunks)$|alloc::vec::Vec::<T, A>::(drain|iter)$|core::array::<impl [^>]*>::(iter|into_iter)$")
def n_iter(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    if op in ("iter",): 
        q = S.seq(st, args[0]); return [(Op("Iter", "ref", q, ZERO, slen(q)), st)]
    if op == "iter_mut":
        r = S.mref(st, args[0]); q = S.seq(st, r); return [(Op("Iter", "mut", r, ZERO, slen(q), S.ety_of(argtys[0])), st)]
    if op in ("chunks", "chunks_exact"):
        q = S.seq(st, args[0]); k = st.ctx.norm(args[1])
        if k.const is None or k.const == 0: raise Unsupported("chunks of symbolic size")
        n = slen(q)
        if op == "chunks_exact": n = scale(fdiv(n, k.const), k.const)
        return [(Op("It.chunks", q, k, ZERO, n), st)]
    if op == "windows":
        q = S.seq(st, args[0]); k = args[1]; n = slen(q)
        a, b = st.split(ge(n, k)); out = []
        if a is not None: out.append((Op("It.windows", q, k, ZERO, add(sub(n, k), ONE)), a))
        if b is not None: out.append((Op("It.windows", q, k, ZERO, ZERO), b))
        return out
    if op == "drain":
        q = S.seq(st, args[0]); out = []
        for kind, a, k, s in S.range_split(st, args[1], argtys[1], slen(q)):
            if kind != "ok": S.I.panic(s, "drain range"); continue
            d = slice_(q, a, k, s.ctx)
            s = s.fork()
            S.put(s, args[0], cat(slice_(q, ZERO, a, s.ctx), slice_(q, add(a, k), sub(sub(slen(q), a), k), s.ctx)))
            out.append((Op("Iter", "val", d, ZERO, k), s))
        return out
    raise Unsupported("slice::" + op)
ADAPT = {"map", "filter", "enumerate", "zip", "rev", "take", "skip", "chain", "copied", "cloned", "step_by", "take_while", "skip_while", "by_ref", "filter_map",
         "peekable", "inspect", "fuse", "map_while", "flat_map", "flatten", "scan", "cycle"}
@method
@pat(r"core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)::(\w+)$")
def n_iterm(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    if c.get("inst") is not None and S.P.fns[c["inst"]]["local"] and not S.P.fns[c["inst"]]["closure"]: return None
    it = args[0]
    if op == "next": return S.wrap_next(S.iter_next(st, it), retty)
    if op == "next_back": return S.wrap_next(S.iter_back(st, it), retty)
    if op == "by_ref": return [(args[0], st)]
    if op in ("nth",):
        r = args[0]; out = []
        for s, sk in S.advance(st, r, args[1]):
            out += S.wrap_next(S.iter_next(s, r), retty)
        return out
    if op in ADAPT:
        if isinstance(it, MutRef): it = Op("It.by_ref", it)
        if op in ("copied", "cloned"): return [(Op("It.copied", it), st)]
        if op == "rev":
            return [(S.reversed(st, it), st)]
        if op in ("take", "skip"):
            n = args[1]
            return S.takeskip(st, it, op, n)
        if op == "zip":
            o = args[1]
            return [(Op("It.zip", it, S.to_iter(st, o, argtys[1])), st)]
        if op == "chain": return [(Op("It.chain", it, S.to_iter(st, args[1], argtys[1]), ZERO), st)]
        if op == "enumerate": return [(Op("It.enumerate", it, ZERO), st)]
        if op in ("map", "filter", "filter_map", "take_while", "inspect", "map_while"): 
            return [(Op("It." + op, it, args[1]), st)]
        if op == "step_by": return [(Op("It.step_by", it, sub(args[1], ONE), ONE), st)]
        if op in ("fuse",): return [(it, st)]
        if op == "cycle" and (isinstance(it, Op) and it.n == "Iter" or isinstance(it, Op) and it.n == "It.copied" and isinstance(it.a[0], Op) and it.a[0].n == "Iter"):
            return [(Op("It.copied", Op("It.cycle", it.a[0], ZERO)) if it.n == "It.copied" else Op("It.cycle", it, ZERO), st)]
        raise Unsupported("iterator adapter " + op)
    # consumers
    ref = it if isinstance(it, MutRef) else MutRef(S.I.newcell(st, it, argtys[0]))
    if op in ("len", "count") :
        n = S.iter_len(st, S.I.read(st, ref.cell, ref.proj))
        if n is not None: return [(n, st)]
        if op == "len": raise Unsupported("iterator length")
    if op == "size_hint": raise Unsupported("size_hint")
    return S.consume(st, op, ref, args[1:], retty, argtys, c)
@method
def wrap_next(S, rs, retty):
    return [(S.none(retty) if v is None else S.some(retty, v), s) for v, s in rs]
@method
def item(S, st, it, i):
    mode = it.a[0]
    if mode == "mut":
        r = it.a[1]
        return MutRef(r.cell, r.proj + (("ix", i, it.a[4]),))
    q = it.a[1]
    if mode == "pair":
        v = S.pair_at(st, q, i)
        return Tup((RefV(v.f[0]), RefV(v.f[1])))
    v = index(q, i, st.ctx, None)
    return RefV(v) if mode == "ref" else v
@method
def pair_at(S, st, q, i):
    s = q.s[0] if q.s else None
    if len(q.s) == 1 and s[0] == "app" and s[1] == "mapiter":
        m = s[2][0]; kty, vty = s[4][1], s[4][2]
        n = S.map_len(m)
        return Tup((index(Seq((("app", "mapkeys", (m,), n, S.P.ety(kty)),)), i, st.ctx, None), index(Seq((("app", "mapvalues", (m,), n, S.P.ety(vty)),)), i, st.ctx, None)))
    return index(q, i, st.ctx, None)
@method
def iter_len(S, st, it):
    if isinstance(it, Op):
        if it.n == "Iter": 
            return sub(it.a[3], it.a[2])
        if it.n in ("It.map", "It.copied", "It.enumerate", "It.inspect"): return S.iter_len(st, it.a[0])
        if it.n == "It.rev": return S.iter_len(st, it.a[0])
        if it.n == "It.zip":
            a, b = S.iter_len(st, it.a[0]), S.iter_len(st, it.a[1])
            if a is None or b is None: return None
            if st.ctx.entails(ge(a, b)): return b
            if st.ctx.entails(ge(b, a)): return a
            return None
        if it.n == "It.windows": return sub(it.a[3], it.a[2])
    k = range_kind(S, it)
    if k == "Range":
        a, b = it.f[0], it.f[1]
        if st.ctx.entails(ge(b, a)): return sub(b, a)
    return None
def setp(S, st, ref, k, v):
    S.I.store(st, ref.cell, ref.proj + (("a", k),), v)
@method
def iter_next(S, st, ref):
    """advance the iterator stored at ref: [(item | None, st)]"""
    if not isinstance(ref, MutRef): raise Unsupported("iterator place")
    it = S.I.read(st, ref.cell, ref.proj)
    sub_ = lambda k: MutRef(ref.cell, ref.proj + (("a", k),))
    out = []
    if isinstance(it, MutRef): return S.iter_next(st, it)
    if isinstance(it, Op):
        n = it.n
        if n == "box": return S.iter_next(st, sub_(0))
        if n == "It.by_ref": return S.iter_next(st, it.a[0])
        if n == "Iter":
            i, e = it.a[2], it.a[3]
            ok, no = st.split(gt(e, i))
            if no is not None: out.append((None, no))
            if ok is not None:
                v = S.item(ok, it, i)
                oks = [ok]
                q = it.a[1]
                if it.a[0] == "val" and i.const == 0 and isinstance(v, Lin) and isinstance(q, Seq) and len(q.s) == 1 and q.s[0][0] == "app" and q.s[0][1] == "chars":
                    # the first character is the first byte when that is ASCII
                    b = index(q.s[0][2][0], ZERO, ok.ctx)
                    one, more = ok.split(lt(b, K(0x80)))
                    oks = [s for s in (one.assume(eq(sub(v, b))) if one is not None else None, more.assume(ge(v, K(0x80))) if more is not None else None) if s is not None]
                for ok in oks:
                    ok = ok.fork(); setp(S, ok, ref, 2, add(i, ONE)); out.append((v, ok))
            return out
        if n == "It.cycle":
            b, k = it.a; i = b.a[2]; m = sub(b.a[3], i)
            ok, no = st.split(gt(m, ZERO))
            if no is not None: out.append((None, no))
            if ok is not None:
                ok = ok.fork(); v = S.item(ok, b, add(i, S.I.divrem(ok, "Rem", k, m, S.P.byname["usize"])))
                setp(S, ok, ref, 1, add(k, ONE)); out.append((v, ok))
            return out
        if n == "It.map":
            for v, s in S.iter_next(st, sub_(0)):
                if v is None: out.append((None, s)); continue
                out += S.callf(s, sub_(1), [v])
            return out
        if n == "It.inspect":
            for v, s in S.iter_next(st, sub_(0)):
                if v is None: out.append((None, s)); continue
                for _, s2 in S.callf(s, sub_(1), [RefV(v)]): out.append((v, s2))
            return out
        if n == "It.copied":
            return [(None if v is None else S.deref(s, v), s) for v, s in S.iter_next(st, sub_(0))]
        if n == "It.enumerate":
            for v, s in S.iter_next(st, sub_(0)):
                if v is None: out.append((None, s)); continue
                k = S.I.read(s, ref.cell, ref.proj).a[1]
                s = s.fork(); setp(S, s, ref, 1, add(k, ONE)); out.append((Tup((k, v)), s))
            return out
        if n == "It.zip":
            for v, s in S.iter_next(st, sub_(0)):
                if v is None: out.append((None, s)); continue
                for w, s2 in S.iter_next(s, sub_(1)):
                    out.append((None if w is None else Tup((v, w)), s2))
            return out
        if n == "It.rev": return S.iter_back(st, sub_(0))
        if n == "It.take":
            k = it.a[1]
            z, ok = st.split(eq(k))
            if z is not None: out.append((None, z))
            if ok is not None:
                ok = ok.fork(); setp(S, ok, ref, 1, sub(k, ONE)); out += S.iter_next(ok, sub_(0))
            return out
        if n == "It.chain":
            if it.a[2].const == 0:
                for v, s in S.iter_next(st, sub_(0)):
                    if v is not None: out.append((v, s)); continue
                    s = s.fork(); setp(S, s, ref, 2, ONE); out += S.iter_next(s, sub_(1))
                return out
            return S.iter_next(st, sub_(1))
        if n in ("It.chunks", "It.windows"):
            q, k, i, e = it.a
            ok, no = st.split(gt(e, i))
            if no is not None: out.append((None, no))
            if ok is None: return out
            if n == "It.windows":
                ok = ok.fork(); setp(S, ok, ref, 2, add(i, ONE)); return out + [(RefV(slice_(q, i, k, ok.ctx)), ok)]
            full, last = ok.split(ge(sub(e, i), k))
            for s, m in ((full, k), (last, sub(e, i))):
                if s is None: continue
                s = s.fork(); v = RefV(slice_(q, i, m, s.ctx)); setp(S, s, ref, 2, add(i, m)); out.append((v, s))
            return out
        if n in ("It.filter", "It.filter_map"):
            # skip elements until one is accepted
            def step(s, fl):
                o = []
                rs = S.iter_next(s, sub_(0))
                if fl is not None: fl["n"] = fl.get("n", 0) + 1; fl["sym"] = fl.get("sym") or len({r is None for r, _ in rs}) > 1
                for v, s2 in rs:
                    if v is None: o.append(("exit", ("none",), s2)); continue
                    if n == "It.filter":
                        for b, s3 in S.callf(s2, sub_(1), [RefV(v)]):
                            ts, fs = S.I.split_bool(s3, b.c)
                            if fl is not None and ts and fs: fl["sym"] = True
                            for x in ts: o.append(("exit", ("some", S.stash(x, v)), x))
                            for x in fs: o.append(("back", None, x))
                    else:
                        for b, s3 in S.callf(s2, sub_(1), [v]):
                            for k, w, s4 in S.optsplit(s3, b):
                                if k: o.append(("exit", ("some", S.stash(s4, w)), s4))
                                else: o.append(("back", None, s4))
                return o
            for tag, s in S.I.lp.generic(step, st, S.I.site() + ":filter"):
                out.append((None, s) if tag[0] == "none" else (S.unstash(s, tag[1]), s))
            return out
        if n in ("It.take_while", "It.map_while"):
            for v, s in S.iter_next(st, sub_(0)):
                if v is None: out.append((None, s)); continue
                if n == "It.map_while":
                    for b, s3 in S.callf(s, sub_(1), [v]):
                        for k, w, s4 in S.optsplit(s3, b): out.append((w if k else None, s4))
                    continue
                for b, s3 in S.callf(s, sub_(1), [RefV(v)]):
                    ts, fs = S.I.split_bool(s3, b.c)
                    out += [(v, x) for x in ts] + [(None, x) for x in fs]
            return out
        if n == "It.step_by":
            first = it.a[2]
            k = it.a[1]
            if first.const == 1:
                s = st.fork(); setp(S, s, ref, 2, ZERO); return S.iter_next(s, sub_(0))
            for s, sk in S.advance(st, sub_(0), k): out += S.iter_next(s, sub_(0))
            return out
        if n == "It.skip":
            s = st.fork(); k = it.a[1]
            for s2, sk in S.advance(s, sub_(0), k):
                s2 = s2.fork(); setp(S, s2, ref, 1, ZERO); out += S.iter_next(s2, sub_(0))
            return out
        raise Unsupported("next on " + n)
    k = range_kind(S, it)
    if isinstance(it, SymAdt): it = S.I.expand(it)
    if k == "Range" and isinstance(it.f[0], Lin):
        a, b = it.f[0], it.f[1]
        ok, no = st.split(gt(b, a))
        if no is not None: out.append((None, no))
        if ok is not None:
            ok = ok.fork(); S.I.store(ok, ref.cell, ref.proj + (("f", 0),), add(a, ONE)); out.append((a, ok))
        return out
    if k == "RangeInclusive" and isinstance(it.f[0], Lin):
        # represented as an exclusive range one past the end
        a, b = it.f[0], it.f[1]
        done = it.f[2] if len(it.f) > 2 else FALSE
        if done == TRUE: return [(None, st)]
        ok, no = st.split(ge(b, a))
        if no is not None: out.append((None, no))
        if ok is not None:
            ok = ok.fork(); S.I.store(ok, ref.cell, ref.proj + (("f", 0),), add(a, ONE)); out.append((a, ok))
        return out
    if k == "RangeFrom" and isinstance(it.f[0], Lin):
        a = it.f[0]
        s = st.fork(); S.I.store(s, ref.cell, ref.proj + (("f", 0),), add(a, ONE)); return [(a, s)]
    if isinstance(it, (Adt, SymAdt)) and S.P.types[it.ty].get("local"):
        f = S.local_impl(it.ty, "next")
        if f is not None:
            for v, s in S.I.call_body(f, [ref], st):
                for kk, w, s2 in S.optsplit(s, v): out.append((w if kk else None, s2))
            return out
    raise Unsupported("next on " + show(it)[:60])
@method
def local_impl(S, ty, name):
    for f in S.P.fns.values():
        if f["local"] and f.get("impl_trait", "") and f["impl_trait"].startswith("core::iter") and f["path"].endswith("::" + name):
            a0 = S.P.types[f["locals"][1][0]]
            if a0["k"] == "ref" and a0["t"] == ty: return f["id"]
    return None
@method
def iter_back(S, st, ref):
    it = S.I.read(st, ref.cell, ref.proj)
    sub_ = lambda k: MutRef(ref.cell, ref.proj + (("a", k),))
    out = []
    if isinstance(it, MutRef): return S.iter_back(st, it)
    if isinstance(it, Op):
        n = it.n
        if n == "It.by_ref": return S.iter_back(st, it.a[0])
        if n == "Iter":
            i, e = it.a[2], it.a[3]
            ok, no = st.split(gt(e, i))
            if no is not None: out.append((None, no))
            if ok is not None:
                v = S.item(ok, it, sub(e, ONE))
                ok = ok.fork(); setp(S, ok, ref, 3, sub(e, ONE)); out.append((v, ok))
            return out
        if n == "It.rev": return S.iter_next(st, sub_(0))
        if n == "It.map":
            for v, s in S.iter_back(st, sub_(0)):
                if v is None: out.append((None, s)); continue
                out += S.callf(s, sub_(1), [v])
            return out
        if n == "It.copied":
            return [(None if v is None else S.deref(s, v), s) for v, s in S.iter_back(st, sub_(0))]
        if n == "It.enumerate":
            L = S.iter_len(st, it.a[0])
            if L is None: raise Unsupported("reverse enumerate")
            k = add(it.a[1], sub(L, ONE))
            for v, s in S.iter_back(st, sub_(0)):
                out.append((None if v is None else Tup((k, v)), s))
            return out
        if n == "It.zip":
            a, b = S.iter_len(st, it.a[0]), S.iter_len(st, it.a[1])
            if a is None or b is None or st.ctx.decide(eq(a, b)) is not True: raise Unsupported("reverse zip")
            for v, s in S.iter_back(st, sub_(0)):
                if v is None: out.append((None, s)); continue
                for w, s2 in S.iter_back(s, sub_(1)):
                    out.append((None if w is None else Tup((v, w)), s2))
            return out
        raise Unsupported("next_back on " + n)
    k = range_kind(S, it)
    if isinstance(it, SymAdt): it = S.I.expand(it)
    if k in ("Range", "RangeInclusive") and isinstance(it.f[0], Lin):
        a, b = it.f[0], it.f[1]
        ok, no = st.split(gt(b, a) if k == "Range" else ge(b, a))
        if no is not None: out.append((None, no))
        if ok is not None:
            ok = ok.fork(); S.I.store(ok, ref.cell, ref.proj + (("f", 1),), sub(b, ONE))
            out.append((sub(b, ONE) if k == "Range" else b, ok))
        return out
    raise Unsupported("next_back on " + show(it)[:60])
@method
def reversed(S, st, it):
    return Op("It.rev", it)
@method
def advance(S, st, ref, k):
    """skip k items; [(st, None)]"""
    it = S.I.read(st, ref.cell, ref.proj)
    if k.const == 0: return [(st, None)]
    if isinstance(it, MutRef): return S.advance(st, it, k)
    if isinstance(it, Op) and it.n == "It.by_ref": return S.advance(st, it.a[0], k)
    if isinstance(it, Op) and it.n == "Iter":
        i, e = it.a[2], it.a[3]
        a, b = st.split(ge(sub(e, i), k)); out = []
        for s, v in ((a, add(i, k)), (b, e)):
            if s is None: continue
            s = s.fork(); setp(S, s, ref, 2, v); out.append((s, None))
        return out
    kd = range_kind(S, it)
    if kd == "Range":
        if isinstance(it, SymAdt): it = S.I.expand(it)
        a, b = st.split(ge(sub(it.f[1], it.f[0]), k)); out = []
        for s, v in ((a, add(it.f[0], k)), (b, None)):
            if s is None: continue
            if v is None:
                e2, l2 = s.split(ge(it.f[1], it.f[0]))
                for s2, v2 in ((e2, it.f[1]), (l2, it.f[0])):
                    if s2 is None: continue
                    s2 = s2.fork(); S.I.store(s2, ref.cell, ref.proj + (("f", 0),), v2); out.append((s2, None))
                continue
            s = s.fork(); S.I.store(s, ref.cell, ref.proj + (("f", 0),), v); out.append((s, None))
        return out
    if isinstance(it, Op) and it.n in ("It.map", "It.copied", "It.rev") and it.n != "It.rev" and it.n != "It.map":
        return S.advance(st, MutRef(ref.cell, ref.proj + (("a", 0),)), k)
    if k.const is not None and k.const <= 64:
        cur = [st]
        for _ in range(k.const):
            nx = []
            for s in cur: nx += [s2 for v, s2 in S.iter_next(s, ref)]
            cur = nx
        return [(s, None) for s in cur]
    raise Unsupported("skip on " + show(it)[:50])
@method
def takeskip(S, st, it, op, n):
    if isinstance(it, Op) and it.n == "Iter":
        i, e = it.a[2], it.a[3]
        a, b = st.split(ge(sub(e, i), n)); out = []
        for s, enough in ((a, True), (b, False)):
            if s is None: continue
            x = list(it.a)
            if op == "take": x[3] = add(i, n) if enough else e
            else: x[2] = add(i, n) if enough else e
            out.append((Op("Iter", *x), s))
        return out
    if isinstance(it, Op) and it.n in ("It.map", "It.copied") and op == "take" or isinstance(it, Op) and it.n == "It.copied":
        return [(Op(it.n, v, *it.a[1:]), s) for v, s in S.takeskip(st, it.a[0], op, n)]
    return [(Op("It." + op, it, n), st)]
@method
def callf(S, st, ref, args):
    """call the function value stored at ref"""
    f = S.I.read(st, ref.cell, ref.proj)
    if isinstance(f, (MutRef, RefV)): return S.I.call_value(st, f, args)
    if isinstance(f, Clos): return S.I.call_value(st, ref, args)
    if isinstance(f, FnDef):
        return S.I.call_value(st, f, args)
    raise Unsupported("call of " + show(f)[:50])
@method
def stash(S, st, v):
    return S.I.newcell(st, v)
@method
def unstash(S, st, c):
    return st.cells[c]
@method
def optsplit(S, st, v):
    """Option value -> [(is_some, payload, st)]"""
    if isinstance(v, Adt): return [(v.var == SOME, v.f[0] if v.var == SOME else None, st)]
    if isinstance(v, SymAdt):
        a, b = st.split(eq(S.P.discr_atom(v), ONE)); out = []
        if a is not None: out.append((True, S.P.field(v, 0, SOME), a))
        if b is not None: out.append((False, None, b))
        return out
    raise Unsupported("option expected")
@method
def ressplit(S, st, v):
    if isinstance(v, Adt): return [(v.var == OK, v.f[0], st)]
    if isinstance(v, SymAdt):
        a, b = st.split(eq(S.P.discr_atom(v), ZERO)); out = []
        if a is not None: out.append((True, S.P.field(v, 0, OK), a))
        if b is not None: out.append((False, S.P.field(v, 0, ERR), b))
        return out
    raise Unsupported("result expected")
@method
def guard(S, fl, rs):
    if fl is not None:
        fl["n"] = fl.get("n", 0) + 1
        if len({v is None for v, _ in rs}) > 1: fl["sym"] = True
@method
def consume(S, st, op, ref, rest, retty, argtys, c):
    I = S.I; RT = S.P.types[retty]
    def loop(body, st, name):
        """body(s, item) -> [('back'|'exit', tag, st)]"""
        def step(s, fl):
            rs = S.iter_next(s, ref); S.guard(fl, rs); o = []
            for v, s2 in rs:
                if v is None: o.append(("exit", ("end",), s2)); continue
                o += body(s2, v)
            return o
        return I.lp.generic(step, st, I.site() + ":" + name)
    it = I.read(st, ref.cell, ref.proj)
    if op in ("collect", "extend_into"):
        return S.collect(st, ref, retty, loop)
    if op == "for_each":
        fc = I.newcell(st, rest[0])
        def body(s, v): return [("back", None, s2) for _, s2 in S.callf(s, MutRef(fc), [v])]
        return [(UNIT, s) for t, s in loop(body, st, op)]
    if op == "try_for_each":
        fc = I.newcell(st, rest[0])
        def body(s, v):
            o = []
            for r, s2 in S.callf(s, MutRef(fc), [v]):
                for ok, w, s3 in S.ressplit(s2, r):
                    if ok: o.append(("back", None, s3))
                    else: o.append(("exit", ("err", S.stash(s3, r)), s3))
            return o
        return [(S.mkres(retty, True, UNIT) if t[0] == "end" else S.unstash(s, t[1]), s) for t, s in loop(body, st, op)]
    if op in ("fold", "sum", "product", "reduce"):
        if op == "fold": init = rest[0]; fc = I.newcell(st, rest[1])
        elif op == "sum": init = ZERO
        elif op == "product": init = ONE
        else: raise Unsupported(op)
        ac = I.newcell(st, init, retty)
        def body(s, v):
            cur = I.read(s, ac, ())
            if op == "fold":
                o = []
                for r, s2 in S.callf(s, MutRef(fc), [cur, v]):
                    s2 = s2.fork(); s2.cells[ac] = r; o.append(("back", None, s2))
                return o
            v = S.deref(s, v)
            r = add(cur, v) if op == "sum" else I.arith(s, "Mul", cur, v)
            lo, hi = S.P.intrange(retty)
            fits = s.ctx.normc(ge(K(hi), r))
            if memory_size(fits): ok, bad = s.assume(fits), None
            else: ok, bad = s.split(fits)
            if bad is not None: I.panic(bad, "overflow in " + op)
            if ok is None: return []
            ok = ok.fork(); ok.cells[ac] = r
            return [("back", None, ok)]
        return [(s.cells[ac], s) for t, s in loop(body, st, op)]
    if op == "count":
        # filter(...).count(): count accepted items in one loop over the underlying items
        ac = I.newcell(st, ZERO, retty)
        base, fref = ref, None
        if isinstance(it, Op) and it.n == "It.filter":
            base = MutRef(ref.cell, ref.proj + (("a", 0),)); fref = MutRef(ref.cell, ref.proj + (("a", 1),))
        def step(s, fl):
            rs = S.iter_next(s, base); S.guard(fl, rs); o = []
            for v, s2 in rs:
                if v is None: o.append(("exit", ("end",), s2)); continue
                if fref is None:
                    s2 = s2.fork(); s2.cells[ac] = add(s2.cells[ac], ONE); o.append(("back", None, s2)); continue
                for b, s3 in S.callf(s2, fref, [RefV(v)]):
                    # a data-dependent increment rather than a fork
                    s3 = s3.fork(); s3.cells[ac] = add(s3.cells[ac], I.bool_int(mkbo(s3.ctx.normc(b.c)))); o.append(("back", None, s3))
            return o
        return [(s.cells[ac], s) for t, s in I.lp.generic(step, st, I.site() + ":count")]
    if op in ("any", "all", "position", "find", "find_map"):
        fc = I.newcell(st, rest[0]); kc = I.newcell(st, ZERO, S.P.byname.get("usize"))
        if op in ("position", "any", "all", "find"):
            r = S.byte_search(st, op, it, ref, fc, retty)
            if r is not None: return r
        def body(s, v):
            o = []
            s = s.fork(); k = s.cells[kc]; s.cells[kc] = add(k, ONE)
            for b, s2 in S.callf(s, MutRef(fc), [RefV(v) if op == "find" else v]):
                if op == "find_map":
                    for kk, w, s3 in S.optsplit(s2, b):
                        o.append(("exit", ("hit", S.stash(s3, w)), s3) if kk else ("back", None, s3))
                    continue
                ts, fs = I.split_bool(s2, b.c if op != "all" else neg(b.c))
                for x in ts:
                    x = x.fork(); o.append(("exit", ("hit", S.stash(x, k if op == "position" else v)), x))
                for x in fs: o.append(("back", None, x))
            return o
        out = []
        for t, s in loop(body, st, op):
            hit = t[0] == "hit"
            if op == "any": out.append((TRUE if hit else FALSE, s))
            elif op == "all": out.append((FALSE if hit else TRUE, s))
            else: out.append((S.some(retty, S.unstash(s, t[1])) if hit else S.none(retty), s))
        return out
    if op in ("max", "min", "last"):
        ac = I.newcell(st, S.none(retty), retty)
        def body(s, v):
            cur = s.cells[ac]
            s = s.fork()
            if op == "last": s.cells[ac] = S.some(retty, v); return [("back", None, s)]
            o = []
            for k, w, s2 in S.optsplit(s, cur):
                if not k:
                    s2 = s2.fork(); s2.cells[ac] = S.some(retty, v); o.append(("back", None, s2)); continue
                a, b = S.deref(s2, w), S.deref(s2, v)
                t, f = s2.split(ge(b, a) if op == "max" else lt(b, a))
                if t is not None: t = t.fork(); t.cells[ac] = S.some(retty, v); o.append(("back", None, t))
                if f is not None: o.append(("back", None, f))
            return o
        return [(s.cells[ac], s) for t, s in loop(body, st, op)]
    raise Unsupported("Iterator::" + op)
@method
def byte_search(S, st, op, it, ref, fc, retty):
    """position/any/all/find with the predicate `element == constant` over a whole byte sequence"""
    if not (isinstance(it, Op) and it.n == "Iter" and it.a[0] in ("ref", "val")) and not (isinstance(it, Op) and it.n == "It.copied" and isinstance(it.a[0], Op) and it.a[0].n == "Iter"): return None
    base = it if it.n == "Iter" else it.a[0]
    mode, q, i, e = base.a[:4]
    if not isinstance(q, Seq) or not isinstance(slen(q), Lin): return None
    if slen(q).const is not None and slen(q).const <= 8: return None
    pv = atom("sym", (("pred",),), 0, 255)
    x = A(pv)
    if not isinstance(index(q, ZERO, st.ctx, None), Lin): return None
    arg = RefV(x) if mode == "ref" and it.n == "Iter" else x
    if op == "find": arg = RefV(arg)
    try: rs = S.callf(st.fork(), MutRef(fc), [arg])
    except Unsupported: return None
    if len(rs) != 1: return None
    v, s2 = rs[0]
    if not isinstance(v, Bo) or not isinstance(v.c, tuple) or s2.ctx.lits != st.ctx.lits: return None
    cnd = v.c if op != "all" else neg(v.c)
    if cnd[0] != "eq" or support(cnd[1]) != {pv} and pv not in support(cnd[1]): return None
    d = cnd[1]
    k = dict(d.t).get(pv)
    if k not in (1, -1): return None
    b = scale(sub(d, Lin(0, ((pv, k),))), -k)
    rest = slice_(q, i, sub(e, i), st.ctx)
    out = []
    for z, s in S.find_byte(st, rest, b):
        s = s.fork()
        r = MutRef(ref.cell, ref.proj + ((("a", 0),) if it.n != "Iter" else ()))
        setp(S, s, r, 2, add(add(i, z), ONE) if z is not None else e)
        if op == "position": out.append((S.some(retty, z) if z is not None else S.none(retty), s))
        elif op == "any": out.append((TRUE if z is not None else FALSE, s))
        elif op == "all": out.append((FALSE if z is not None else TRUE, s))
        else: out.append((S.some(retty, S.item(s, base, add(i, z))) if z is not None else S.none(retty), s))
    return out
@method
def collect(S, st, ref, ty, loop):
    I = S.I; T = S.P.types[ty]
    p = T.get("path", "")
    if p.startswith("core::result") or p.startswith("core::option"):
        isres = p.startswith("core::result")
        ac = S.new_acc(st, T["args"][0])
        def body(s, v):
            o = []
            for ok, w, s2 in (S.ressplit(s, v) if isres else S.optsplit(s, v)):
                if ok:
                    for s3 in S.acc_add(s2, ac, T["args"][0], w): o.append(("back", None, s3))
                else: o.append(("exit", ("err", S.stash(s2, w if w is not None else UNIT)), s2))
            return o
        out = []
        for t, s in loop(body, st, "collect"):
            if t[0] == "end": out.append((S.mkres(ty, True, s.cells[ac]) if isres else S.some(ty, s.cells[ac]), s))
            else: out.append((S.mkres(ty, False, S.unstash(s, t[1])) if isres else S.none(ty), s))
        return out
    it = I.read(st, ref.cell, ref.proj)
    # whole-sequence shortcuts
    if isinstance(it, Op) and it.n == "Iter" and it.a[0] == "val" and S.P.is_seq(ty):
        q, i, e = it.a[1], it.a[2], it.a[3]
        if len(q.s) == 1 and q.s[0][0] == "app" and q.s[0][1] == "chars" and not p.endswith("Vec"):
            if i.const == 0 and e == slen(q): return [(q.s[0][2][0], st)]
            return [(Seq((("app", "fromchars", (q, i, e), A(atom("lenof", ("fromchars", q, i, e), 0, HI63)), "u8"),)), st)]
        if (p.endswith("Vec") or S.is_ascii(q)) and not (len(q.s) == 1 and q.s[0][0] == "app" and q.s[0][1] in ("split", "splitn") and p.endswith("String")):
            return [(slice_(q, i, sub(e, i), st.ctx), st)]
    if isinstance(it, Op) and it.n == "It.copied" and isinstance(it.a[0], Op) and it.a[0].n == "Iter" and it.a[0].a[0] == "ref" and p.endswith("Vec"):
        q, i, e = it.a[0].a[1:4]
        return [(slice_(q, i, sub(e, i), st.ctx), st)]
    ac = S.new_acc(st, ty)
    def body(s, v): return [("back", None, s2) for s2 in S.acc_add(s, ac, ty, v)]
    return [(s.cells[ac], s) for t, s in loop(body, st, "collect")]
@method
def new_acc(S, st, ty):
    p = S.P.types[ty].get("path", "")
    if "HashMap" in p or "HashSet" in p: return S.I.newcell(st, Op("map", None, ()), ty)
    if S.P.is_seq(ty) or p.endswith("Box"): return S.I.newcell(st, Seq(()), ty)
    if S.P.types[ty]["k"] == "tuple" and not S.P.types[ty]["ts"]: return S.I.newcell(st, UNIT, ty)
    raise Unsupported("collect into " + S.P.types[ty]["s"])
@method
def acc_add(S, st, cell, ty, v):
    p = S.P.types[ty].get("path", "")
    cur = st.cells[cell]
    if isinstance(cur, Op) and cur.n == "map":
        k, val = (v.f[0], v.f[1]) if isinstance(v, Tup) and "HashMap" in p else (v, UNIT)
        out = []
        for w, s in S.map_find(st, cur, S.deref(st, k)):
            s = s.fork(); s.cells[cell] = S.map_put(s, cur, k, w, val); out.append(s)
        return out
    if cur == UNIT: return [st]
    s = st.fork()
    if p.endswith("String"):
        w = S.deref(st, v)
        s.cells[cell] = cat(cur, S.char_seq(w) if isinstance(w, Lin) else S.seq(st, w))
    else: s.cells[cell] = push(cur, v)
    return [s]
@method
@nat("core::iter::traits::collect::Extend::extend", "core::iter::traits::collect::FromIterator::from_iter")
def n_extend(S, st, c, args, retty, argtys):
    fi = c["path"].endswith("from_iter")
    it = S.to_iter(st, args[-1], argtys[-1])
    ref = MutRef(S.I.newcell(st, it, argtys[-1]))
    if fi: return S.consume(st, "collect", ref, [], retty, argtys, c)
    t = argtys[0]
    while S.P.types[t]["k"] == "ref": t = S.P.types[t]["t"]
    r = S.mref(st, args[0])
    byref = False
    if isinstance(it, Op) and it.n == "Iter" and it.a[0] in ("ref", "val"):
        q, i, e = it.a[1:4]
        cur = S.seq(st, r)
        if not (len(q.s) == 1 and q.s[0][0] == "app" and q.s[0][1] in ("split", "splitn", "chars")):
            S.I.store(st, r.cell, r.proj, cat(cur, slice_(q, i, sub(e, i), st.ctx))); return [(UNIT, st)]
    tmp = S.I.newcell(st, S.I.read(st, r.cell, r.proj), t)
    def step(s, fl):
        rs = S.iter_next(s, ref); S.guard(fl, rs); o = []
        for v, s2 in rs:
            if v is None: o.append(("exit", None, s2)); continue
            w = S.deref(s2, v) if isinstance(v, RefV) and isinstance(v.v, Lin) else v
            o += [("back", None, x) for x in S.acc_add(s2, tmp, t, w)]
        return o
    out = []
    for _, s in S.I.lp.generic(step, st, S.I.site() + ":extend"):
        s = s.fork(); S.I.store(s, r.cell, r.proj, s.cells[tmp]); out.append((UNIT, s))
    return out
@method
@nat("core::ops::range::RangeInclusive::<Idx>::new")
def n_rincl(S, st, c, args, retty, argtys): return [(Adt(retty, 0, [args[0], args[1], FALSE]), st)]
@method
@pat(r"core::ops::range::Range(Inclusive)?::<Idx>::(contains|is_empty|start|end)$")
def n_rcontains(S, st, c, args, retty, argtys):
    r = S.deref(st, args[0]); op = c["path"].split("::")[-1]
    if isinstance(r, SymAdt): r = S.I.expand(r)
    a, b = r.f[0], r.f[1]
    incl = "RangeInclusive" in c["path"]
    if op == "start": return [(RefV(a), st)]
    if op == "end": return [(RefV(b), st)]
    if op == "is_empty": return [(mkbo(neg(gt(b, a) if not incl else ge(b, a))), st)]
    x = S.deref(st, args[1])
    up = ge(b, x) if incl else gt(b, x)
    return [(mkbo(rebuild_bool("and", (ge(x, a), up))), st)]
@method
@pat(r"core::option::Option::<T>::(iter|into_iter)$")
def n_optit(S, st, c, args, retty, argtys):
    v = S.deref(st, args[0])
    return S.opt_iter(st, v if isinstance(args[0], Adt) else Adt(v.ty, v.var, [RefV(x) for x in v.f]))
@method
@nat("core::iter::sources::repeat::repeat", "core::iter::sources::empty::empty", "core::iter::sources::once::once")
def n_src(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    if op == "repeat": return [(Op("Iter", "val", mkseq([("rep", args[0], K(HI63))]), ZERO, K(HI63)), st)]
    q = els(args)
    return [(Op("Iter", "val", q, ZERO, slen(q)), st)]

# ======================= searches in ordered sequences =======================
@method
@pat(r"core::slice::<impl \[T\]>::(partition_point|binary_search_by)$")
def n_bsearch(S, st, c, args, retty, argtys):
    """on an ordered sequence: the first place that is not before the one looked for"""
    q = S.seq(st, args[0]); n = slen(q).const
    if n is None or n > 16: raise Unsupported("binary search in a sequence of unknown length")
    pp = c["path"].endswith("partition_point")
    out = []; cur = [st]
    for i in range(n):
        nx = []
        for s in cur:
            for v, s2 in S.I.call_value(s, args[1], [RefV(index(q, K(i), s.ctx))]):
                if pp:
                    yes, no = s2.split(v.c) if not isinstance(v.c, bool) else ((s2, None) if v.c else (None, s2))
                    if yes is not None: nx.append(yes)
                    if no is not None: out.append((K(i), no))
                else:
                    if isinstance(v, Op) and v.n == "cmp": cases = S.cmp_cases(s2, v)
                    elif isinstance(v, Adt): cases = [(v.var, s2)]
                    else: raise Unsupported("comparison " + show(v)[:40])
                    for o, s3 in cases:
                        if o == 0: nx.append(s3)
                        else: out.append((Adt(retty, OK if o == 1 else ERR, [K(i)]), s3))
        cur = nx
    for s in cur: out.append((K(n) if pp else Adt(retty, ERR, [K(n)]), s))
    return out

@method
@pat(r"alloc::vec::Vec::<T, A>::dedup_by$")
def n_dedup_by(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); n = slen(q).const
    if n is None or n > 16: raise Unsupported("dedup_by on a sequence of unknown length")
    cur = [((), st)]
    for i in range(n):
        nx = []
        for kept, s in cur:
            s = s.fork(); k = S.I.newcell(s, index(q, K(i), s.ctx))
            if not kept: nx.append(((k,), s)); continue
            for v, s2 in S.I.call_value(s, args[1], [MutRef(k), MutRef(kept[-1])]):
                yes, no = s2.split(v.c) if not isinstance(v.c, bool) else ((s2, None) if v.c else (None, s2))
                if yes is not None: nx.append((kept, yes))
                if no is not None: nx.append((kept + (k,), no))
        cur = nx
    out = []
    for kept, s in cur:
        S.put(s, args[0], els([s.cells[k] for k in kept])); out.append((UNIT, s))
    return out
