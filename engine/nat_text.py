"""Texts as lists of ASCII characters and decimal numbers."""
from natives import *
from natives import nat, pat, method
import natives, seqs
HI63 = (1 << 63) - 1
WS = [(9, 13), (32, 32)]; DIGIT = [(48, 57)]

class Dec:
    """the decimal digits of a non-negative number"""
    __slots__ = ("v", "seg")
    def __init__(self, v, seg): self.v = v; self.seg = seg
def text(xs):
    """back to a text"""
    out = []
    for x in xs:
        if isinstance(x, Dec): out.append(Seq((x.seg,)))
        elif x.const is not None: out.append(const_seq(bytes([x.const])))
        else: out.append(els([x]))
    return cat(*out) if out else Seq(())
@method
def items(S, q):
    """characters and numbers of a text, or None when its content is unknown"""
    out = []
    for s in q.s:
        if s[0] == "k":
            if any(b > 127 for b in s[1]): return None
            out += [K(b) for b in s[1]]
        elif s[0] == "el" and isinstance(s[1], Lin) and rng(s[1])[0] >= 0 and rng(s[1])[1] < 128: out.append(s[1])
        elif s[0] == "app" and s[1] == "dec" and rng(s[2][0])[0] >= 0: out.append(Dec(s[2][0], s))
        else: return None
    return out
def domain(st, x):
    if isinstance(x, Dec): return DIGIT
    if x.const is not None: return [(x.const, x.const)]
    if x.c == 0 and len(x.t) == 1:
        a, k = x.t[0]
        if k == 1 and a.kind == "app" and a.args[0] in ("hexdigit", "HEXDIGIT"):
            lo, hi = rng(a.args[1][0]); b = 97 if a.args[0] == "hexdigit" else 65
            return [(48, 57), (b, b + 5)]
    return [rng(x, st.ctx.iv)]
def inside(st, x, ranges):
    """(states in which the character is in one of the ranges, states in which it is not); None when undecided"""
    d = domain(st, x)
    d = [(l, h) for l, h in d if l <= h]
    within = lambda a: any(l <= a[0] and a[1] <= h for l, h in ranges)
    apart = lambda a: all(a[1] < l or h < a[0] for l, h in ranges)
    if all(within(a) for a in d): return [st], []
    if all(apart(a) for a in d): return [], [st]
    if isinstance(x, Dec): return None
    ts = []; cur = [st]
    for l, h in ranges:
        nx = []
        for s in cur:
            a, b = s.split(ge(x, K(l)))
            if b is not None: nx.append(b)
            if a is not None:
                a, b = a.split(ge(K(h), x))
                if b is not None: nx.append(b)
                if a is not None: ts.append(a)
        cur = nx
    # a digit's set of values may have gaps
    ok = lambda s: any(max(l, rng(x, s.ctx.iv)[0]) <= min(h, rng(x, s.ctx.iv)[1]) for l, h in d)
    return [s for s in ts if ok(s)], [s for s in cur if ok(s)]
@method
def matcher(S, st, p):
    """pattern -> fn(state, item) -> (ts, fs) or None, for patterns of one character"""
    if isinstance(p, Lin):
        if p.const is None: return None
        return lambda s, x: inside(s, x, [(p.const, p.const)])
    if isinstance(p, Seq):
        b = seqs.const_bytes(p)
        if b is not None and len(b) == 1: return lambda s, x: inside(s, x, [(b[0], b[0])])
        if p.s and all(g[0] == "el" and isinstance(g[1], Lin) and g[1].const is not None for g in p.s) and len(p.s) > 1: return lambda s, x: inside(s, x, [(g[1].const, g[1].const) for g in p.s])
        return None
    if isinstance(p, FnDef):
        n = p.key[0] if isinstance(p.key, tuple) else str(p.key)
        if "is_whitespace" in str(n): return lambda s, x: inside(s, x, WS)
        if "is_ascii_digit" in str(n) or "is_numeric" in str(n): return lambda s, x: inside(s, x, DIGIT)
        return None
    if isinstance(p, Clos):
        def f(s, x):
            if isinstance(x, Dec): y = A(atom("sym", ("digit", x.v), 48, 57))
            else: y = x
            ts, fs = [], []
            for v, s2 in S.I.call_value(s, p, [y]):
                if not isinstance(v, Bo): return None
                a, b = S.I.split_bool(s2, v.c); ts += a; fs += b
            if isinstance(x, Dec):
                if ts and fs: return None
                return ([s], []) if ts else ([], [s])
            return ts, fs
        return f
    return None
@method
def text_scan(S, st, q, p):
    """[(items with True where the pattern matches, state)] or None"""
    xs = S.items(q)
    if xs is None: return None
    m = S.matcher(st, p)
    if m is None: return None
    cur = [([], st)]
    for x in xs:
        nx = []
        for fl, s in cur:
            r = m(s, x)
            if r is None: return None
            nx += [(fl + [True], t) for t in r[0]] + [(fl + [False], f) for f in r[1]]
        cur = nx
        if len(cur) > 4096: return None
    return [(xs, fl, s) for fl, s in cur]
def pattern(S, st, a):
    if isinstance(a, (Clos, FnDef)): return a
    d = S.deref(st, a)
    return d
@method
def text_split(S, st, name, q, args):
    """pieces of a text: [([Seq], st)] or None"""
    n = None
    if name in ("splitn", "rsplitn"):
        n = st.ctx.norm(args[1])
        if n.const is None: return None
        n = n.const; p = pattern(S, st, args[2])
    elif name in ("split_whitespace", "split_ascii_whitespace"): p = None
    elif name == "lines": p = K(10)
    else: p = pattern(S, st, args[1])
    if p is None:
        xs = S.items(q)
        if xs is None: return None
        cur = [([], st)]
        for x in xs:
            nx = []
            for fl, s in cur:
                r = inside(s, x, WS)
                if r is None: return None
                nx += [(fl + [True], t) for t in r[0]] + [(fl + [False], f) for f in r[1]]
            cur = nx
        rs = [(xs, fl, s) for fl, s in cur]
    else: rs = S.text_scan(st, q, p)
    if rs is None: return None
    out = []
    for xs, fl, s in rs:
        parts = [[]]
        if name == "rsplitn":
            for x, f in reversed(list(zip(xs, fl))):
                if f and len(parts) < n: parts.append([])
                else: parts[-1].insert(0, x)
            if n == 0: parts = []
        else:
            for x, f in zip(xs, fl):
                if f and (n is None or len(parts) < n): 
                    if name == "split_inclusive": parts[-1].append(x)
                    parts.append([])
                else: parts[-1].append(x)
            if n == 0: parts = []
            if name in ("split_terminator", "lines", "split_inclusive") and parts and not parts[-1]: parts.pop()
            if name == "lines":
                for y in parts:
                    if y and isinstance(y[-1], Lin) and y[-1].const is None: return None
                parts = [y[:-1] if y and isinstance(y[-1], Lin) and y[-1].const == 13 else y for y in parts]
            if name.endswith("whitespace"): parts = [y for y in parts if y]
            if name == "rsplit": parts.reverse()
        out.append(([text(y) for y in parts], s))
    return out
@method
def text_fn(S, st, name, q, args):
    """trim, replace, case: [(Seq, st)] or None"""
    xs = S.items(q)
    if xs is None: return None
    if name in ("trim", "trim_start", "trim_end", "trim_matches", "trim_end_matches", "trim_start_matches"):
        m = (lambda s, x: inside(s, x, WS)) if "matches" not in name else S.matcher(st, pattern(S, st, args[1]))
        if m is None: return None
        cur = [(xs, st)]
        for front in (True, False):
            if front and "end" in name or not front and "start" in name: continue
            done = []
            while cur:
                ys, s = cur.pop()
                if not ys: done.append((ys, s)); continue
                r = m(s, ys[0 if front else -1])
                if r is None: return None
                for t in r[0]: cur.append((ys[1:] if front else ys[:-1], t))
                for f in r[1]: done.append((ys, f))
            cur = done
        return [(text(ys), s) for ys, s in cur]
    if name == "replace":
        to = S.items(S.seq(st, args[2]))
        if to is None: return None
        p = pattern(S, st, args[1])
        rs = S.text_scan(st, q, p)
        if rs is None:
            b = seqs.const_bytes(q); pb = seqs.const_bytes(p) if isinstance(p, Seq) else None; tb = seqs.const_bytes(S.seq(st, args[2]))
            if b is None or not pb or tb is None: return None
            return [(const_seq(b.replace(pb, tb)), st)]
        out = []
        for ys, fl, s in rs:
            o = []
            for y, f in zip(ys, fl): o += to if f else [y]
            out.append((text(o), s))
        return out
    if name in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase"):
        low = "lower" in name; cur = [([], st)]
        for x in xs:
            nx = []
            for ys, s in cur:
                for y, s2 in S.recase(s, x, low): nx.append((ys + [y], s2))
            cur = nx
        return [(text(ys), s) for ys, s in cur]
    return None
@method
def recase(S, st, x, low):
    if isinstance(x, Dec): return [(x, st)]
    if x.const is None and x.c == 0 and len(x.t) == 1 and x.t[0][0].kind == "app" and x.t[0][0].args[0] in ("hexdigit", "HEXDIGIT"):
        return [(A(atom("app", ("hexdigit" if low else "HEXDIGIT", x.t[0][0].args[1]), 48, 102)), st)]
    ts, fs = inside(st, x, [(65, 90)] if low else [(97, 122)])
    return [(add(x, K(32 if low else -32)), t) for t in ts] + [(x, f) for f in fs]
@method
def text_find(S, st, name, q, p):
    """[(position or None, length of the match, before, after, st)] or None"""
    rs = S.text_scan(st, q, p)
    if rs is None: return None
    out = []
    for xs, fl, s in rs:
        ks = [i for i, f in enumerate(fl) if f]
        if not ks: out.append((None, None, None, None, s)); continue
        k = ks[-1] if name in ("rsplit_once", "rfind") else ks[0]
        a, b = text(xs[:k]), text(xs[k + 1:])
        out.append((slen(a), ONE, a, b, s))
    return out
@method
def text_int(S, st, q, lo, hi, radix=10):
    """integer written by a text: [(Lin or None, st)] or None"""
    xs = S.items(q)
    if xs is None or radix not in (10, 16): return None
    if not xs: return [(None, st)]
    if radix == 10 and any(isinstance(x, Dec) for x in xs):
        pre = xs[:-1]
        if not isinstance(xs[-1], Dec) or any(isinstance(x, Dec) or x.const is None for x in pre):
            # one character that is neither a digit nor a leading sign is enough
            for i, x in enumerate(xs):
                if isinstance(x, Lin) and x.const is not None and not 48 <= x.const <= 57 and not (i == 0 and x.const in (43, 45)): return [(None, st)]
            return None
        ns = [x.const for x in pre]; sg = 1
        if ns and ns[0] == 43: ns = ns[1:]
        elif ns and ns[0] == 45:
            if lo >= 0: return [(None, st)]
            sg = -1; ns = ns[1:]
        if any(not 48 <= c <= 57 for c in ns): return [(None, st)]
        if any(c != 48 for c in ns): return None
        v = scale(xs[-1].v, sg); out = []
        ok, bad = st.split(ge(K(hi), v) if sg > 0 else ge(v, K(lo)))
        if ok is not None: out.append((v, ok))
        if bad is not None: out.append((None, bad))
        return out
    out = []; cur = [([], xs, st, 1)]
    starts = []
    x0 = xs[0]
    if len(xs) > 1:
        r = inside(st, x0, [(43, 43)])
        for t in r[0]: starts.append((xs[1:], t, 1))
        for f in r[1]:
            if lo < 0:
                r2 = inside(f, x0, [(45, 45)])
                for t in r2[0]: starts.append((xs[1:], t, -1))
                for g in r2[1]: starts.append((xs, g, 1))
            else: starts.append((xs, f, 1))
    else: starts = [(xs, st, 1)]
    cur = [(ys, s, sg, ZERO) for ys, s, sg in starts]
    while cur:
        ys, s, sg, v = cur.pop()
        if not ys:
            w = scale(v, sg)
            ok, bad = s.split(ge(K(hi), w))
            if bad is not None: out.append((None, bad))
            if ok is not None:
                ok, bad = ok.split(ge(w, K(lo)))
                if bad is not None: out.append((None, bad))
                if ok is not None: out.append((w, ok))
            continue
        for d, s2 in S.digit(s, ys[0], radix):
            if d is None: out.append((None, s2))
            else: cur.append((ys[1:], s2, sg, add(scale(v, radix), d)))
        if len(cur) > 4096: return None
    return out
@method
def digit(S, st, x, radix):
    """[(value or None, st)]"""
    if radix == 16 and x.const is None and x.c == 0 and len(x.t) == 1 and x.t[0][0].kind == "app" and x.t[0][0].args[0] in ("hexdigit", "HEXDIGIT"):
        return [(x.t[0][0].args[1][0], st)]
    out = []
    ts, fs = inside(st, x, [(48, 47 + min(radix, 10))])
    out += [(sub(x, K(48)), t) for t in ts]
    if radix == 16:
        for l, k in ((97, 87), (65, 55)):
            nx = []
            for s in fs:
                a, b = inside(s, x, [(l, l + 5)])
                out += [(sub(x, K(k)), t) for t in a]; nx += b
            fs = nx
    return out + [(None, f) for f in fs]
@method
def text_unhex(S, st, q):
    """bytes written by hexadecimal digits: [(Seq or None, st)] or None"""
    xs = S.items(q)
    if xs is None or any(isinstance(x, Dec) for x in xs): return None
    if len(xs) % 2: return [(None, st)]
    cur = [([], st)]; out = []
    for i in range(0, len(xs), 2):
        nx = []
        for bs, s in cur:
            for a, s1 in S.digit(s, xs[i], 16):
                if a is None: out.append((None, s1)); continue
                for b, s2 in S.digit(s1, xs[i + 1], 16):
                    if b is None: out.append((None, s2))
                    else: nx.append((bs + [add(scale(a, 16), b)], s2))
        cur = nx
        if len(cur) > 256: return None
    return out + [(els(bs), s) for bs, s in cur]
CH = {"is_ascii_digit": DIGIT, "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)], "is_whitespace": WS, "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
      "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)],
      "is_ascii": [(0, 127)], "is_numeric": DIGIT, "is_alphabetic": [(65, 90), (97, 122)], "is_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)], "is_ascii_control": [(0, 31), (127, 127)], "is_control": [(0, 31), (127, 127)]}
@method
@pat(r"core::char::methods::<impl char>::(is_\w+|to_digit|is_digit|to_ascii_\w+)$|core::num::<impl u8>::(is_ascii\w*|to_ascii_\w+)$|core::ascii::\w+::<impl \w+>::(is_ascii\w*)$")
def n_char(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    x = S.deref(st, args[0])
    if not isinstance(x, Lin): raise Unsupported("character " + op)
    if op in CH:
        if op in ("is_numeric", "is_alphabetic", "is_alphanumeric", "is_whitespace", "is_control") and rng(x, st.ctx.iv)[1] > 127: raise Unsupported("char::" + op)
        ts, fs = inside(st, x, CH[op])
        return [(TRUE, t) for t in ts] + [(FALSE, f) for f in fs]
    if op in ("to_digit", "is_digit"):
        r = st.ctx.norm(args[1])
        if r.const is None or not (r.const <= 10 or r.const == 16): raise Unsupported("char::" + op)
        if op == "is_digit": return [(mkbo(d is not None), s) for d, s in S.digit(st, x, r.const)]
        return [(S.none(retty) if d is None else S.some(retty, d), s) for d, s in S.digit(st, x, r.const)]
    if op in ("to_ascii_lowercase", "to_ascii_uppercase"): return S.recase(st, x, "lower" in op)
    raise Unsupported("char::" + op)
