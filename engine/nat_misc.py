"""Formatting, durations, digests, hex, RSA."""
from natives import *
from natives import nat, pat, method
HI63 = (1 << 63) - 1

def app_seq(name, args, lo=0, hi=HI63):
    return Seq((("app", name, tuple(args), A(atom("lenof", (name,) + tuple(args), lo, hi)), "u8"),))
def dec_seq(v, opts=None):
    if v.const is not None and not opts: return const_seq(str(v.const).encode())
    lo, hi = rng(v)
    if not opts:
        if lo >= 0 and hi <= 9: return els([add(v, K(48))])
        return app_seq("dec", (v,), 1, len(str(hi)) if lo >= 0 and hi < 10**40 else 40)
    return app_seq("decf", (v, opts), 1, HI63)

@method
@pat(r"core::fmt::Arguments::<'a>::(new|from_str|from_str_nonconst|new_const|new_v1|as_str)$")
def n_args(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    if op.startswith("from_str"):
        return [(Op("fmtargs", (("lit", S.seq(st, args[0])),)), st)]
    if op == "new":
        t = seqs.const_bytes(S.seq(st, args[0]))
        av = S.seq(st, args[1])
        if t is None: raise Unsupported("format template")
        n = slen(av).const or 0
        items = [index(av, K(i), st.ctx) for i in range(n)]
        return [(Op("fmtargs", S.template(t, items)), st)]
    raise Unsupported("fmt::Arguments::" + op)
@method
def template(S, t, items):
    """decode the byte-code of a formatting template"""
    out = []; i = 0; nxt = 0
    while True:
        b = t[i]; i += 1
        if b == 0: break
        if b < 0x80: out.append(("lit", const_seq(t[i:i + b]))); i += b; continue
        if b == 0x80:
            n = t[i] | t[i + 1] << 8; i += 2
            out.append(("lit", const_seq(t[i:i + n]))); i += n; continue
        opts = []
        def val(ind):
            x = int.from_bytes(t[i:i + 2], "little")
            return items[x].a[1] if ind else K(x)
        if b & 1: opts.append(("flags", int.from_bytes(t[i:i + 4], "little"))); i += 4
        if b & 2: opts.append(("width", val(b & 16))); i += 2
        if b & 4: opts.append(("prec", val(b & 32))); i += 2
        if b & 8: nxt = int.from_bytes(t[i:i + 2], "little"); i += 2
        out.append(("arg", items[nxt], tuple(opts))); nxt += 1
    return tuple(out)
@method
@pat(r"core::fmt::rt::Argument::<'_>::(new_display|new_debug|new_lower_hex|new_upper_hex|from_usize|new_\w+)$")
def n_arg(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    t = argtys[0]
    while S.P.types[t]["k"] == "ref": t = S.P.types[t]["t"]
    return [(Op("fmtarg", op[4:] if op.startswith("new_") else op, S.deref(st, args[0]), ("ty", t)), st)]
@method
def format(S, st, fa):
    """[(text, st)]"""
    fa = S.deref(st, fa)
    if not (isinstance(fa, Op) and fa.n == "fmtargs"): raise Unsupported("format arguments")
    cur = [(Seq(()), st)]
    for p in fa.a[0]:
        if p[0] == "lit": cur = [(cat(q, p[1]), s) for q, s in cur]; continue
        nx = []
        for q, s in cur:
            for r, s2 in S.fmt_value(s, p[1].a[0], p[1].a[1], p[1].a[2][1], p[2]): nx.append((cat(q, r), s2))
        cur = nx
    return cur
@method
def fmt_value(S, st, kind, v, ty, opts):
    v = S.deref(st, v); T = S.P.types[ty]
    if kind == "display":
        if isinstance(v, Lin):
            if T["k"] == "char": return [(S.char_seq(v), st)]
            return [(S.padded(st, v, opts), st)]
        if isinstance(v, Seq):
            if opts:
                o = dict(opts); fl = o.get("flags", 0x20)
                if "prec" not in o and len(v.s) == 1 and v.s[0][0] == "app" and v.s[0][1] == "dec" and fl & 0x1FFFFF == 0x30 and (fl >> 29) & 3 == 1 and rng(v.s[0][2][0])[0] >= 0:
                    return [(S.zpad(st, v.s[0][2][0], o["width"]), st)]
                return [(app_seq("pad", (v, opts)), st)]
            return [(v, st)]
        if isinstance(v, Bo):
            out = []
            ts, fs = S.I.split_bool(st, v.c)
            return [(const_seq(b"true"), s) for s in ts] + [(const_seq(b"false"), s) for s in fs]
        if isinstance(v, Op) and v.n == "fmtargs": return S.format(st, v)
    f = S.fmt_impl(ty, "Display" if kind == "display" else "Debug" if kind == "debug" else None)
    if f is not None:
        cell = S.I.newcell(st, Op("Formatter", Seq(()), opts))
        out = []
        for r, s in S.I.call_body(f, [RefV(v), MutRef(cell)], st):
            out.append((s.cells[cell].a[0], s))
        return out
    if kind in ("lower_hex", "upper_hex") and isinstance(v, Lin):
        w = dict(opts).get("width"); w = w.const if w is not None else None; fl = dict(opts).get("flags", 0)
        if w == 2 and rng(v)[1] <= 255 and rng(v)[0] >= 0 and fl & (1 << 24):
            return [(els(S.nibbles(v, kind == "upper_hex")), st)]
        return [(app_seq(kind, (v, opts)), st)]
    return [(app_seq("dbg" if kind == "debug" else kind, (v,)), st)]
@method
def padded(S, st, v, opts):
    o = dict(opts); fl = o.get("flags", 0x20 | 3 << 29)
    w = o.get("width")
    if w is not None: w = st.ctx.norm(w)
    special = fl & (7 << 21 | 3 << 25)
    if not special and (w is None or w.const == 0): return dec_seq(v)
    if not special and w is not None and (rng(v, st.ctx.iv)[0] >= 0 or st.ctx.entails(ge(v))):
        zero = fl & (1 << 24) or (fl & 0x1FFFFF == 0x30 and (fl >> 29) & 3 in (1, 3))
        if zero: return S.zpad(st, v, w)
    return app_seq("decf", (v, opts), 1)
@method
def zpad(S, st, v, w):
    """decimal digits, padded on the left with zeros to a minimum width"""
    v = st.ctx.norm(v)
    if w.const is not None and v.const is not None: return const_seq(str(v.const).zfill(w.const).encode())
    hi = rng(v, st.ctx.iv)[1]
    if w.const is not None and hi < 10 ** w.const: return Seq((("app", "zpad", (v, w), w, "u8"),))
    return app_seq("zpad", (v, w), 1)
@method
def fmt_impl(S, ty, trait):
    if trait is None: return None
    n = S.P.types[ty].get("s")
    for f in S.P.fns.values():
        if f["local"] and f.get("impl_trait") == "core::fmt::" + trait and f.get("impl_self") == n: return f["id"]
    return None
@method
@nat("alloc::fmt::format", "alloc::fmt::format::format_inner")
def n_format(S, st, c, args, retty, argtys):
    return S.format(st, args[0])
@method
@nat("alloc::string::ToString::to_string", "alloc::string::SpecToString::spec_to_string")
def n_tostring(S, st, c, args, retty, argtys):
    t = argtys[0]
    while S.P.types[t]["k"] == "ref": t = S.P.types[t]["t"]
    return S.fmt_value(st, "display", args[0], t, ())
@method
@pat(r"core::fmt::(Formatter::<'a>::(\w+)|Write::\w+|builders::\w+::<'a, 'b>::\w+)$")
def n_fmtr(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    if op in ("width", "precision", "alternate", "fill", "sign_plus", "sign_minus", "sign_aware_zero_pad"):
        if op == "alternate" or op.startswith("sign"): return [(FALSE, st)]
        raise Unsupported("Formatter::" + op)
    r = S.mref(st, args[0]); f = S.I.read(st, r.cell, r.proj)
    def app(s, q):
        w = S.I.read(s, r.cell, r.proj)
        if isinstance(w, Seq): S.I.store(s, r.cell, r.proj, cat(w, q))
        elif not (isinstance(w, Op) and w.n == "Formatter"): S.I.store(s, r.cell, r.proj, Op("Formatter", q, ()))
        else: S.I.store(s, r.cell, r.proj, Op("Formatter", cat(w.a[0], q), w.a[1]))
        return (Adt(retty, OK, [UNIT]), s)
    if op == "write_fmt": return [app(s.fork(), q) for q, s in S.format(st, args[1])]
    if op in ("write_str", "pad", "debug_c_like_enum_write_str"): return [app(st, S.seq(st, args[1]))]
    if op == "write_char": return [app(st, S.char_seq(args[1]))]
    if op.startswith("debug_") and op.endswith("_finish"):
        return [app(st, app_seq("dbg", tuple(S.deref(st, a) for a in args[1:])))]
    raise Unsupported("Formatter::" + op)
@method
@pat(r"^(core::fmt::(Display|Debug)::fmt|std::io::stdio::_(e?print)|log::__private_api::\w+)$")
def n_fmtfmt(S, st, c, args, retty, argtys):
    if "Display" in c["path"] or "Debug" in c["path"]:
        if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
        t = argtys[0]
        while S.P.types[t]["k"] == "ref": t = S.P.types[t]["t"]
        out = []
        for q, s in S.fmt_value(st, "display" if "Display" in c["path"] else "debug", args[0], t, ()):
            s = s.fork(); r = S.mref(s, args[1]); w = S.I.read(s, r.cell, r.proj)
            S.I.store(s, r.cell, r.proj, Op("Formatter", cat(w.a[0], q), w.a[1])); out.append((Adt(retty, OK, [UNIT]), s))
        return out
    if "print" in c["path"]:
        out = []
        for q, s in S.format(st, args[0]):
            s = s.fork(); s.emit("print", q); out.append((UNIT, s))
        return out
    return None
# ---- durations ----
@method
@pat(r"core::time::Duration::(\w+)$")
def n_dur(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    G = 10**9
    unit = {"secs": G, "millis": 10**6, "micros": 1000, "nanos": 1}
    if op.startswith("from_") and op[5:] in unit: return [(Op("dur", scale(args[0], unit[op[5:]])), st)]
    if op == "new": return [(Op("dur", add(scale(args[0], G), args[1])), st)]
    d = S.deref(st, args[0])
    if not (isinstance(d, Op) and d.n == "dur"):
        d = S.as_dur(d)
    n = d.a[0]
    if op.startswith("as_") and op[3:] in unit: return [(fdiv(n, unit[op[3:]]), st)]
    if op.startswith("subsec_"): 
        r = fmod(n, G); return [(fdiv(r, unit[op[7:]]), st)]
    if op == "is_zero": return [(mkbo(eq(n)), st)]
    if op in ("checked_add", "saturating_add"):
        x = add(n, S.as_dur(args[1]).a[0]); hi = K(((1 << 64) - 1) * G + G - 1)
        ok, bad = st.split(ge(hi, x)); out = []
        if ok is not None: out.append((Op("dur", x) if op[0] == "s" else S.some(retty, Op("dur", x)), ok))
        if bad is not None: out.append((Op("dur", hi) if op[0] == "s" else S.none(retty), bad))
        return out
    raise Unsupported("Duration::" + op)
@method
def as_dur(S, v):
    if isinstance(v, Op) and v.n == "dur": return v
    if isinstance(v, Op) and v.n == "val": return Op("dur", A(atom("sym", (v.a[1] + ("ns",),), 0, ((1 << 64) - 1) * 10**9 + 10**9 - 1)))
    if isinstance(v, SymAdt): return Op("dur", A(atom("sym", (v.path + ("ns",),), 0, ((1 << 64) - 1) * 10**9 + 10**9 - 1)))
    raise Unsupported("duration " + show(v)[:40])
# ---- digests ----
@method
@pat(r"digest::(digest::Digest|DynDigest|Update|FixedOutput)::(new|update|chain_update|finalize|digest|new_with_prefix|finalize_into|finalize_reset|finalize_fixed|chain|reset)$")
def n_digest(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    tn = S.P.types[c["args"][0]]["s"]
    alg = "sha256" if "Sha256" in tn else "sha1" if "Sha1" in tn else "sha512" if "Sha512" in tn else "sha224" if "Sha224" in tn else "md5" if "Md5" in tn else tn
    n = {"sha1": 20, "sha256": 32, "sha512": 64, "sha224": 28}.get(alg)
    def out(q): return Seq((("app", alg, (st.ctx.norm(q),), K(n), "u8"),))
    if op == "new": return [(Op("hasher", alg, Seq(())), st)]
    if op == "new_with_prefix": return [(Op("hasher", alg, S.seq(st, args[0])), st)]
    if op == "digest": return [(out(S.seq(st, args[0])), st)]
    h = S.deref(st, args[0])
    if op == "update":
        r = S.mref(st, args[0])
        S.I.store(st, r.cell, r.proj, Op("hasher", alg, cat(h.a[1], S.seq(st, args[1])))); return [(UNIT, st)]
    if op in ("chain_update", "chain"): return [(Op("hasher", alg, cat(h.a[1], S.seq(st, args[1]))), st)]
    if op in ("finalize", "finalize_fixed"): return [(out(h.a[1]), st)]
    if op == "finalize_reset":
        r = S.mref(st, args[0]); S.I.store(st, r.cell, r.proj, Op("hasher", alg, Seq(()))); return [(out(h.a[1]), st)]
    raise Unsupported("digest " + op)
# ---- hex ----
@method
def nibbles(S, b, upper=False):
    r = []
    for x in (fdiv(b, 16), fmod(b, 16)):
        if x.const is not None: r.append(K(ord("%X" % x.const if upper else "%x" % x.const)))
        else: r.append(A(atom("app", ("hexdigit" if not upper else "HEXDIGIT", (x,)), 48, 102)))
    return r
@method
@nat("hex::encode", "hex::encode_upper")
def n_hexenc(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); n = st.ctx.norm(slen(q)); up = c["path"].endswith("upper")
    if n.const is not None and n.const <= 64:
        return [(els([d for i in range(n.const) for d in S.nibbles(index(q, K(i), st.ctx), up)]), st)]
    return [(Seq((("app", "hex" if not up else "HEX", (q,), scale(slen(q), 2), "u8"),)), st)]
@method
@nat("hex::decode")
def n_hexdec(S, st, c, args, retty, argtys):
    q = st.ctx.norm(S.seq(st, args[0])); out = []
    rs = S.text_unhex(st, q)
    if rs is not None: return [(S.mkres(retty, v is not None, v if v is not None else Op("hexerr", q)), s) for v, s in rs]
    ok, bad = st.split(B("ishex", q))
    if ok is not None:
        L = slen(q); m = A(atom("app", ("hexlen", (q,)), 0, HI63))
        ok = ok.assume(eq(L, scale(m, 2)))
        if ok is not None:
            out.append((S.mkres(retty, True, Seq((("app", "unhex", (q,), m, "u8"),))), ok))
    if bad is not None: out.append((S.mkres(retty, False, Op("hexerr", q)), bad))
    return out
# ---- RSA ----
@method
@pat(r"openssl::rsa::Rsa::<.*>::public_key_from_pem(_pkcs1)?$|openssl::rsa::Rsa::<.*>::public_key_from_der")
def n_rsa(S, st, c, args, retty, argtys):
    q = st.ctx.norm(S.seq(st, args[0])); out = []
    ok, bad = st.split(B("rsakey", q, c["path"].split("::")[-1]))
    if ok is not None: out.append((S.mkres(retty, True, Op("rsa", q)), ok))
    if bad is not None: out.append((S.mkres(retty, False, Op("opensslerr", q)), bad))
    return out
@method
@pat(r"openssl::rsa::RsaRef::<T>::(size|public_encrypt)$")
def n_rsaref(S, st, c, args, retty, argtys):
    k = S.deref(st, args[0]); op = c["path"].split("::")[-1]
    n = A(atom("app", ("rsasize", k.a), 0, 1 << 16))
    if op == "size": return [(n, st)]
    src = st.ctx.norm(S.seq(st, args[1])); dst = S.seq(st, args[2]); pad = args[3]
    ok, bad = st.split(ge(slen(dst), n)); out = []
    if bad is not None: S.I.panic(bad, "RSA output buffer")
    if ok is None: return out
    good, fail = ok.split(B("rsaenc", k.a[0], src, pad))
    if good is not None:
        good = good.fork()
        enc = Seq((("app", "rsa", (k.a[0], src, pad), n, "u8"),))
        S.put(good, args[2], seqs.splice(dst, ZERO, n, enc, good.ctx))
        out.append((S.mkres(retty, True, n), good))
    if fail is not None: out.append((S.mkres(retty, False, Op("opensslerr", src)), fail))
    return out

# ======================= shared state =======================
@method
@pat(r"core::sync::atomic::Atomic\w*(::<.*>)?::(load|store|swap|fetch_\w+|compare_exchange\w*|compare_and_swap)$")
def n_atomic(S, st, c, args, retty, argtys):
    """what an atomic holds is not known: anything may have been stored by others"""
    op = c["path"].split("::")[-1]
    if op == "store": return [(UNIT, st)]
    k = ("atomics",); n = st.cells.get(k, ZERO); st.cells[k] = add(n, ONE)
    T = S.P.types[retty]
    if T["k"] not in ("int", "bool"): raise Unsupported("atomic " + op)
    return [(S.P.mksym(retty, ("atomic", n)), st)]
