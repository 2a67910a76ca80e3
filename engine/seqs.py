"""Sequences (byte strings, vectors, text) as concatenations of segments."""
from terms import *
import terms

MODEL = [None]     # set by model.Types; knows how to build symbolic elements

def seglen(s):
    k = s[0]
    if k == "in": return s[3]
    if k == "k": return K(len(s[1]))
    if k == "el": return ONE
    if k == "rep": return s[2]
    if k in ("gen", "bgen"): return s[1]
    if k == "app": return s[3]
    if k in ("upd", "rev"): return slen(s[1])
    if k == "sl": return s[3]
    raise Exception(k)
def slen(q):
    r = ZERO
    for s in q.s: r = add(r, seglen(s))
    return r
def gen_level(x):
    """highest canonical bound-variable level used inside a term, -1 if none"""
    m = -1
    for a in support(x):
        if a.kind == "kap" and a.args[0] == "lv": m = max(m, a.args[1])
    return max(m, _lv(x))
def _lv(x):
    m = -1
    if isinstance(x, Seq): 
        for s in x.s:
            if s[0] == "gen": m = max(m, s[2].args[1] if s[2].args[0] == "lv" else -1)
            elif s[0] == "bgen": m = max(m, s[3].args[1] if s[3].args[0] == "lv" else -1)
            m = max(m, _lv(s))
    elif isinstance(x, tuple):
        for e in x: m = max(m, _lv(e))
    elif isinstance(x, (Adt, Tup)):
        m = max([m] + [_lv(e) for e in x.f])
    elif isinstance(x, RefV): m = _lv(x.v)
    elif isinstance(x, Op): m = _lv(x.a)
    return m
def bound(level): return atom("kap", ("lv", level), 0, INF)
def mkgen(n, kap, body):
    lv = _lv(body) + 1
    b = bound(lv)
    if kap is not b: body = subst(body, {kap: A(b)})
    return ("gen", n, b, body)
def mkbgen(n, a, kap, vals):
    lv = max([_lv(v) for v in vals]) + 1
    b = bound(lv)
    if kap is not b: vals = tuple(subst(v, {kap: A(b)}) for v in vals)
    return ("bgen", n, a, b, tuple(vals))
def mkseq(segs):
    out = []
    for s in segs:
        k = s[0]
        if k == "el" and isinstance(s[1], Lin) and s[1].const is not None and 0 <= s[1].const < 256 and (len(s) < 3 or s[2]):
            pass
        n = seglen(s)
        if n.const == 0 and k != "el": continue
        if k in ("gen",) and n.const is not None and 0 < n.const <= 16:
            for i in range(n.const): out_push(out, ("el", subst(s[3], {s[2]: K(i)})))
            continue
        if k == "gen":
            # gen of consecutive source elements is a slice of the source
            b = s[3]
            if isinstance(b, Lin) and len(b.t) == 1 and b.t[0][1] == 1 and b.c == 0 and b.t[0][0].kind == "by":
                buf, pos = b.t[0][0].args
                base = sub(pos, A(s[2]))
                if s[2] not in support(base) and s[2] not in support(buf):
                    out_push(out, ("in", buf, base, n, "u8")); continue
        if k == "rep" and n.const is not None and n.const <= 32:
            for i in range(n.const): out_push(out, ("el", s[1]))
            continue
        if k == "rev":
            r = reverse_static(s[1])
            if r is not None:
                for e in r: out_push(out, e)
                continue
        out_push(out, s)
    return Seq(out)
def reverse_static(q):
    r = []
    for s in reversed(q.s):
        if s[0] in ("el", "rep"): r.append(s)
        elif s[0] == "k": r.append(("k", s[1][::-1]))
        elif s[0] == "rev": r.extend(s[1].s)
        elif len(q.s) == 1: return None
        else: r.append(("rev", Seq((s,))))
    return r
def out_push(out, s):
    k = s[0]
    if k == "el" and isinstance(s[1], Lin) and len(s[1].t) == 1 and s[1].c == 0 and s[1].t[0][1] == 1 and s[1].t[0][0].kind == "by":
        a = s[1].t[0][0]
        s = ("in", a.args[0], a.args[1], ONE, "u8"); k = "in"
    if k == "el" and isinstance(s[1], Lin) and s[1].const is not None and 0 <= s[1].const < 256:
        s = ("k", bytes([s[1].const])); k = "k"
    if k == "rep" and isinstance(s[1], Lin) and s[1].const is not None and s[2].const is not None and s[2].const <= 64:
        s = ("k", bytes([s[1].const]) * s[2].const); k = "k"
    if out:
        p = out[-1]
        if k == "in" and p[0] == "in" and p[1] == s[1] and p[4] == s[4] and add(p[2], p[3]) == s[2]:
            out[-1] = ("in", p[1], p[2], add(p[3], s[3]), s[4]); return
        if k == "k" and p[0] == "k":
            out[-1] = ("k", p[1] + s[1]); return
        if k == "rep" and p[0] == "rep" and p[1] == s[1]:
            out[-1] = ("rep", s[1], add(p[2], s[2])); return
    out.append(s)
def cat(*qs):
    r = []
    for q in qs: r.extend(q.s)
    return mkseq(r)
def const_seq(b): return Seq((("k", bytes(b)),)) if b else Seq(())
def els(vs): return mkseq([("el", v) for v in vs])
def push(q, v): return mkseq(q.s + (("el", v),))

def slice_(q, start, n, ctx):
    """elements start..start+n ; the caller has established start+n<=len"""
    start = ctx.norm(start); n = ctx.norm(n)
    if n.const == 0: return Seq(())
    if start.const == 0 and (n == slen(q) or ctx.norm(slen(q)) == n): return q
    out = []
    pos = ZERO
    end = add(start, n)
    for i, s in enumerate(q.s):
        L = ctx.norm(seglen(s))
        e = add(pos, L)
        # segment [pos,e); wanted [start,end)
        if ctx.entails(ge(start, e)): pos = e; continue
        if ctx.entails(ge(pos, end)): break
        last = i == len(q.s) - 1
        first = not out and i == 0
        lo = None
        if ctx.entails(ge(start, pos)): lo = sub(start, pos)
        elif ctx.entails(ge(pos, start)): lo = ZERO
        hi = None
        if ctx.entails(ge(end, e)): hi = L
        elif ctx.entails(ge(e, end)): hi = sub(end, pos)
        if lo is None or hi is None:
            return Seq((("sl", q, start, n),))
        m = sub(hi, lo)
        out.append(seg_slice(s, lo, m, ctx))
        pos = e
    r = []
    for o in out: r.extend(o)
    return mkseq(r)
def seg_slice(s, lo, n, ctx):
    if n.const == 0: return []
    if lo.const == 0 and n == seglen(s): return [s]
    k = s[0]
    if k == "in": return [("in", s[1], add(s[2], lo), n, s[4])]
    if k == "k" and lo.const is not None and n.const is not None: return [("k", s[1][lo.const:lo.const + n.const])]
    if k == "el": return [s]
    if k == "rep": return [("rep", s[1], n)]
    if k == "gen":
        return [mkgen(n, s[2], subst(s[3], {s[2]: add(A(s[2]), lo)}))]
    if k == "sl": return [("sl", s[1], add(s[2], lo), n)]
    return [("sl", Seq((s,)), lo, n)]

def index(q, i, ctx, ety=None):
    """element i (caller has established i < len)"""
    i = ctx.norm(i)
    pos = ZERO
    n = len(q.s)
    for j, s in enumerate(q.s):
        L = ctx.norm(seglen(s))
        e = add(pos, L)
        if j == n - 1 or ctx.entails(gt(e, i)):
            if j == 0 or ctx.entails(ge(i, pos)):
                return seg_index(s, sub(i, pos), ctx, ety)
            break
        if ctx.entails(ge(i, e)): pos = e; continue
        break
    return opaque_elem(q, i, ety)
def seg_index(s, i, ctx, ety):
    k = s[0]
    if k == "in": return MODEL[0].elem(s[1], add(s[2], i), s[4])
    if k == "k" and i.const is not None: return K(s[1][i.const])
    if k in ("el", "rep"): return s[1]
    if k == "gen": return subst(s[3], {s[2]: i})
    if k == "bgen":
        m = ctx.norm(fmod(i, s[2])); d = fdiv(i, s[2])
        if m.const is not None: return subst(s[4][m.const], {s[3]: d})
    if k == "upd":
        d = ctx.decide(eq(i, s[2]))
        if d is True: return s[3]
        if d is False: return index(s[1], i, ctx, ety)
    if k == "rev":
        return index(s[1], sub(sub(slen(s[1]), ONE), i), ctx, ety)
    if k == "sl":
        return index(s[1], add(s[2], i), ctx, ety)
    if k == "app" and s[1] == "dec" and (ety is None or ety == "u8"): return A(atom("app", ("digitof", s[2], i), 48, 57))
    if k == "app" and (ety is None or ety == "u8"): ety = s[4]
    return opaque_elem(Seq((s,)), i, ety)
def opaque_elem(q, i, ety):
    return MODEL[0].elem(("sel", q), i, ety)

def update(q, i, v, ctx):
    """functional update at index i (in bounds)"""
    i = ctx.norm(i)
    pos = ZERO
    for j, s in enumerate(q.s):
        L = ctx.norm(seglen(s))
        e = add(pos, L)
        if ctx.entails(ge(i, e)): pos = e; continue
        if ctx.entails(ge(i, pos)) and (j == len(q.s) - 1 or ctx.entails(gt(e, i))):
            o = sub(i, pos)
            if s[0] == "el": r = [("el", v)]
            elif s[0] == "k" and o.const is not None:
                r = [("k", s[1][:o.const]), ("el", v), ("k", s[1][o.const + 1:])]
            elif s[0] == "upd" and s[2] == o: r = [("upd", s[1], o, v)]
            elif s[0] in ("in", "rep") and (o.const is not None):
                r = seg_slice(s, ZERO, o, ctx) + [("el", v)] + seg_slice(s, add(o, ONE), sub(sub(L, o), ONE), ctx)
            else: r = [("upd", Seq((s,)), o, v)]
            return mkseq(q.s[:j] + tuple(r) + q.s[j + 1:])
        break
    return Seq((("upd", q, i, v),))

def insert(q, i, v, ctx):
    n = ctx.norm(slen(q))
    return cat(slice_(q, ZERO, i, ctx), Seq((("el", v),)), slice_(q, i, sub(n, i), ctx))
def remove(q, i, ctx):
    n = ctx.norm(slen(q))
    return cat(slice_(q, ZERO, i, ctx), slice_(q, add(i, ONE), sub(sub(n, i), ONE), ctx))
def splice(q, start, n, new, ctx):
    """replace n elements from start by the sequence new (same length)"""
    L = ctx.norm(slen(q))
    return cat(slice_(q, ZERO, start, ctx), new, slice_(q, add(start, n), sub(sub(L, start), n), ctx))
def reverse(q):
    r = reverse_static(q)
    if r is not None: return mkseq(r)
    return mkseq([("rev", q)])
def const_bytes(q):
    """python bytes if the whole sequence is constant"""
    r = b""
    for s in q.s:
        if s[0] != "k": return None
        r += s[1]
    return r
def byte_list(q, n):
    """list of n Lin byte values of a sequence with known constant length n"""
    from dom import Ctx
    c = Ctx()
    return [index(q, K(i), c) for i in range(n)]
