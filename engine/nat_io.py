"""Models of readers, writers, sockets, files and hash maps."""
from natives import *
from natives import nat, pat, method
import natives

HI63 = (1 << 63) - 1
EOF = Op("ioerr", "UnexpectedEof")

def find_rebuild(a, args): return None

# ======================= hash maps =======================
@method
def map_find(S, st, m, key):
    """[(index | 'base' | None, st)] : where the key is found"""
    out = []; cur = [st]
    for i in range(len(m.a[1]) - 1, -1, -1):
        k, v = m.a[1][i]
        nx = []
        for s in cur:
            e = S.equal(s, S.deref(s, k), key)
            if e is None: raise Unsupported("map key comparison")
            t, f = S.I.split_bool(s, e)
            for x in t: out.append((i if not (isinstance(v, Op) and v.n == "absent") else None, x))
            nx += f
        cur = nx
    for s in cur:
        if m.a[0] is None: out.append((None, s)); continue
        t, f = s.split(B("has", m.a[0], key))
        if t is not None: out.append(("base", t))
        if f is not None: out.append((None, f))
    return out
@method
def map_value(S, st, m, key, w, vty):
    if w is None: return None
    if w == "base":
        if vty is None: return Op("mapat", m.a[0], key)
        return S.P.mksym(vty, m.a[0] + (("at", key),) if isinstance(m.a[0], tuple) else (m.a[0], ("at", key)))
    return m.a[1][w][1]
@method
def map_get(S, st, m, key, retty):
    vty = S.vty_of(retty)
    return [(S.map_value(s, m, key, w, vty), s) for w, s in S.map_find(st, m, key)]
@method
def vty_of(S, retty):
    T = S.P.types[retty]
    if T["k"] == "adt" and T["path"].startswith("core::option"): T = S.P.types[T["args"][0]]; 
    if T["k"] == "ref": return T["t"]
    return None
@method
def map_put(S, st, m, key, w, v):
    es = list(m.a[1])
    if isinstance(w, int): es[w] = (es[w][0], v)
    else: es.append((key, v))
    return Op("map", m.a[0], tuple(es))
@method
def map_lookup_known(S, m, key):
    for k, v in reversed(m.a[1]):
        if k == key: return v
    raise Unsupported("map entry")
@method
def map_store_known(S, st, m, key, v):
    es = list(m.a[1])
    for i in range(len(es) - 1, -1, -1):
        if es[i][0] == key:
            es[i] = (key, v); return Op("map", m.a[0], tuple(es))
    raise Unsupported("map entry")
def map_tys(S, argtys):
    t = argtys[0]
    while S.P.types[t]["k"] == "ref": t = S.P.types[t]["t"]
    a = S.P.types[t]["args"]
    return a[0], (a[1] if len(a) > 1 else None)
@method
def the_map(S, st, v):
    m = S.deref(st, v)
    if not (isinstance(m, Op) and m.n == "map"): raise Unsupported("map expected: " + show(m)[:60])
    return m
@method
@pat(r"std::collections::hash::(map::HashMap|set::HashSet)::<[^>]*>::(get|get_mut|insert|contains_key|contains|remove|entry|len|is_empty|values|keys|iter|clear|with_capacity|values_mut|into_values|into_keys|get_or_insert_with|reserve|retain|get_key_value|remove_entry|extend|iter_mut|drain)$")
def n_map(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    if op == "with_capacity": return [(Op("map", None, ()), st)]
    if op == "reserve": return [(UNIT, st)]
    m = S.the_map(st, args[0]); out = []
    kty, vty = map_tys(S, argtys)
    isset = "HashSet" in c["path"]
    if op in ("get", "contains_key", "contains", "get_mut", "remove"):
        key = S.deref(st, args[1])
        if "HashSet" in c["path"] and op == "get": op = "contains"
        for w, s in S.map_find(st, m, key):
            if op in ("contains_key", "contains"): out.append((TRUE if w is not None else FALSE, s)); continue
            if op == "remove":
                v = S.map_value(s, m, key, w, vty) if not isset else None
                if s is st: s = s.fork()
                if w is not None: S.put(s, args[0], S.map_put(s, m, key, w, Op("absent")))
                if isset: out.append((TRUE if w is not None else FALSE, s))
                else: out.append((S.some(retty, v) if w is not None else S.none(retty), s))
                continue
            if w is None: out.append((S.none(retty), s)); continue
            v = S.map_value(s, m, key, w, vty)
            if op == "get": out.append((S.some(retty, RefV(v)), s)); continue
            s = s.fork()
            if w == "base": S.put(s, args[0], S.map_put(s, m, key, w, v)); k2 = key
            else: k2 = m.a[1][w][0]
            r = S.mref(s, args[0])
            out.append((S.some(retty, MutRef(r.cell, r.proj + (("mapval", k2),))), s))
        return out
    if op == "insert":
        key = S.deref(st, args[1])
        for w, s in S.map_find(st, m, key):
            s = s.fork()
            if isset:
                if w is None: S.put(s, args[0], S.map_put(s, m, key, None, UNIT))
                out.append((TRUE if w is None else FALSE, s)); continue
            old = S.map_value(s, m, key, w, vty)
            S.put(s, args[0], S.map_put(s, m, key, w, args[2]))
            out.append((S.some(retty, old) if w is not None else S.none(retty), s))
        return out
    if op == "entry":
        key = args[1]
        T = S.P.types[retty]
        for w, s in S.map_find(st, m, key):
            vs = T.get("variants")
            occ = Op("mapentry", args[0], key if not isinstance(w, int) else m.a[1][w][0], w if w is not None else "new", vty)
            if vs:
                vi = [i for i, v in enumerate(vs) if v["name"] == ("Vacant" if w is None else "Occupied")][0]
                out.append((Adt(retty, vi, [occ]), s))
            else: out.append((occ, s))
        return out
    if op in ("len", "is_empty"):
        n = S.map_len(m)
        return [(n if op == "len" else mkbo(eq(n)), st)]
    if op == "clear":
        S.put(st, args[0], Op("map", None, ())); return [(UNIT, st)]
    if op in ("values", "keys", "iter", "into_values", "into_keys"):
        return [(S.map_iter(st, m, op.replace("into_", ""), kty, vty, not op.startswith("into_")), st)]
    raise Unsupported("map." + op)
@method
def map_len(S, m):
    if m.a[0] is None and not m.a[1]: return ZERO
    if m.a[0] is None and all(not (isinstance(v, Op) and v.n == "absent") for k, v in m.a[1]) and len(m.a[1]) == 1: return ONE
    return A(atom("lenof", ("map", m), 0, HI63))
@method
def map_iter(S, st, m, what, kty, vty, byref):
    n = S.map_len(m)
    if what == "iter":
        if m.a[0] is None:
            q = els([Tup((k, v)) for k, v in m.a[1] if not (isinstance(v, Op) and v.n == "absent")]); n = slen(q)
        else:
            # an unordered traversal: element i is the i-th (key, value) pair
            q = Seq((("app", "mapiter", (m,), n, ("pair", kty, vty)),))
        return Op("Iter", "pair", q, ZERO, n)
    if m.a[0] is None:
        q = els([(k if what == "keys" else v) for k, v in m.a[1] if not (isinstance(v, Op) and v.n == "absent")]); n = slen(q)
    else: q = Seq((("app", "mapvalues" if what == "values" else "mapkeys", (m,), n, S.P.ety(vty if what == "values" else kty)),))
    return Op("Iter", "ref" if byref else "val", q, ZERO, n)
@method
@pat(r"std::collections::hash::map::(Entry|VacantEntry|OccupiedEntry)::<[^>]*>::(or_insert|or_insert_with|or_default|insert|get|get_mut|into_mut|and_modify|key|remove|insert_entry|or_insert_with_key)$")
def n_entry(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    e = S.deref(st, args[0])
    if isinstance(e, Adt): e = e.f[0]
    if not (isinstance(e, Op) and e.n == "mapentry"): raise Unsupported("map entry")
    ref, key, w, vty = e.a
    m = S.the_map(st, ref)
    def target(s):
        r = S.mref(s, ref); return MutRef(r.cell, r.proj + (("mapval", key),))
    def ensure(s, v):
        if w == "new": S.put(s, ref, S.map_put(s, m, key, None, v))
        elif w == "base": S.put(s, ref, S.map_put(s, m, key, "base", S.map_value(s, m, key, "base", vty)))
    if op in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
        if w != "new": ensure(st, None); return [(target(st), st)]
        if op == "or_insert": ensure(st, args[1]); return [(target(st), st)]
        if op == "or_insert_with":
            out = []
            for v, s in S.I.call_value(st, args[1], []): ensure(s, v); out.append((target(s), s))
            return out
        if op == "or_default" and c.get("inst") is None:
            if vty is not None and S.P.is_seq(vty): ensure(st, Seq(())); return [(target(st), st)]
    if op in ("get", "get_mut", "into_mut"):
        ensure(st, None)
        t = target(st)
        return [(RefV(S.deref(st, t)) if op == "get" else t, st)]
    if op == "insert":
        if "Vacant" in c["path"]: ensure(st, args[1]); return [(target(st), st)]
        old = S.map_value(st, m, key, w, vty)
        ensure(st, None); t = target(st); S.I.store(st, t.cell, t.proj, args[1]); return [(old, st)]
    if op == "key": return [(RefV(key), st)]
    if op == "and_modify":
        if w == "new": return [(args[0], st)]
        ensure(st, None); out = []
        e2 = Op("mapentry", ref, key, next(i for i in range(len(S.the_map(st, ref).a[1]) - 1, -1, -1) if S.the_map(st, ref).a[1][i][0] == key), vty)
        base = S.deref(st, args[0])
        v2 = Adt(base.ty, base.var, [e2]) if isinstance(base, Adt) else e2
        for _, s in S.I.call_value(st, args[1], [target(st)]): out.append((v2, s))
        return out
    raise Unsupported("map entry " + op)

# ======================= cursors, readers =======================
@method
@pat(r"core::io::cursor::Cursor::<T>::(new|get_ref|get_mut|into_inner|position|set_position|is_empty|remaining|split)$|std::io::cursor::Cursor::<T>::\w+$")
def n_cursor(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    if op == "new": return [(Op("Cursor", args[0], ZERO), st)]
    cu = S.deref(st, args[0])
    if not (isinstance(cu, Op) and cu.n == "Cursor"): raise Unsupported("cursor expected")
    if op == "get_ref": 
        v = cu.a[0]
        return [(RefV(v), st)]
    if op == "into_inner": return [(cu.a[0], st)]
    if op == "position": return [(cu.a[1], st)]
    r = S.mref(st, args[0])
    if op == "get_mut": return [(MutRef(r.cell, r.proj + (("a", 0),)), st)]
    if op == "set_position":
        S.I.store(st, r.cell, r.proj, Op("Cursor", cu.a[0], args[1])); return [(UNIT, st)]
    raise Unsupported("Cursor::" + op)
@method
@nat("core::io::seek::Seek::seek", "std::io::Seek::seek", "core::io::seek::Seek::stream_position", "core::io::seek::Seek::rewind", "core::io::seek::Seek::seek_relative")
def n_seek(S, st, c, args, retty, argtys):
    r = S.mref(st, args[0]); cu = S.I.read(st, r.cell, r.proj)
    op = c["path"].split("::")[-1]
    if not (isinstance(cu, Op) and cu.n == "Cursor"):
        return S.file_seek(st, r, cu, op, args, retty)
    if op == "stream_position": return [(S.mkres(retty, True, cu.a[1]), st)]
    n = slen(S.seq(st, cu.a[0])); out = []
    U = (1 << 64) - 1
    if op == "rewind": cases = [(st, ZERO)]
    elif op == "seek_relative": cases = [(st, add(cu.a[1], args[1]))]
    else:
        w = args[1]; cases = []
        if isinstance(w, SymAdt): raise Unsupported("symbolic seek")
        name = S.P.variants(w.ty)[w.var]["name"]
        base = {"Start": ZERO, "Current": cu.a[1], "End": n}[name]
        cases.append((st, add(base, w.f[0])))
    for s, p in cases:
        neg_, ok = s.split(lt(p, ZERO))
        if neg_ is not None: out.append((S.mkres(retty, False, Op("ioerr", "InvalidInput")), neg_))
        if ok is not None:
            big, ok2 = ok.split(gt(p, K(U)))
            if big is not None: out.append((S.mkres(retty, False, Op("ioerr", "InvalidInput")), big))
            if ok2 is not None:
                if ok2 is st: ok2 = ok2.fork()
                S.I.store(ok2, r.cell, r.proj, Op("Cursor", cu.a[0], p))
                out.append((S.mkres(retty, True, p if op != "rewind" and op != "seek_relative" else UNIT), ok2))
    return out
@method
def file_seek(S, st, r, cu, op, args, retty):
    raise Unsupported("seek on " + show(cu)[:40])
@method
def reader(S, st, ref):
    """('cur', place, cursor) | ('sl', place, seq) | ('ext', place, value) | ('take', place, op)"""
    r = S.mref(st, ref); v = S.I.read(st, r.cell, r.proj)
    if isinstance(v, Op) and v.n == "Cursor": return ("cur", r, v)
    if isinstance(v, Op) and v.n == "box": return S.reader(st, MutRef(r.cell, r.proj + (("a", 0),)))
    if isinstance(v, Op) and v.n == "BufReader": return S.reader(st, MutRef(r.cell, r.proj + (("a", 0),)))
    if isinstance(v, Op) and v.n == "Take": return ("take", r, v)
    if isinstance(v, (Seq, RefV)): return ("sl", r, S.seq(st, v))
    return ("ext", r, v)
@method
def take_bytes(S, st, ref, n):
    """read exactly n bytes: [(seq, None, st) | (None, err, st)]"""
    k, r, v = S.reader(st, ref); out = []
    if k == "cur":
        q = S.seq(st, v.a[0]); L = slen(q); p = v.a[1]
        cur = st
        if n.const is None or n.const == 0:
            z, cur = st.split(eq(n))
            if z is not None: out.append((Seq(()), None, z))
            if cur is None: return out
        ok, bad = cur.split(ge(L, add(p, n)))
        if bad is not None:
            if bad is st: bad = bad.fork()
            S.I.store(bad, r.cell, r.proj, Op("Cursor", v.a[0], L))
            out.append((None, EOF, bad))
        if ok is not None:
            ok = ok.fork()
            S.I.store(ok, r.cell, r.proj, Op("Cursor", v.a[0], add(p, n)))
            out.append((slice_(q, p, n, ok.ctx), None, ok))
        return out
    if k == "sl":
        L = slen(v)
        ok, bad = st.split(ge(L, n))
        if bad is not None:
            bad = bad.fork(); S.I.store(bad, r.cell, r.proj, RefV(Seq(()))); out.append((None, EOF, bad))
        if ok is not None:
            ok = ok.fork()
            S.I.store(ok, r.cell, r.proj, RefV(slice_(v, n, sub(L, n), ok.ctx)))
            out.append((slice_(v, ZERO, n, ok.ctx), None, ok))
        return out
    if k == "take":
        src, lim = v.a
        ok, bad = st.split(ge(lim, n))
        if bad is not None: out.append((None, EOF, bad))
        if ok is not None:
            for q, e, s in S.take_bytes(ok, src, n):
                s = s.fork(); S.I.store(s, r.cell, r.proj, Op("Take", src, sub(lim, n)))
                out.append((q, e, s))
        return out
    # a socket or file: the bytes are unknown, the read may fail
    return S.ext_read(st, r, n)
@method
def ext_read(S, st, r, n):
    if n.const == 0: return [(Seq(()), None, st)]
    nm = S.newname(st, "net")
    q = mkseq([("in", nm, ZERO, n, "u8")])
    bad = st.fork(); bad.emit("readerr", n)
    bad.ctx = bad.ctx.assume(B("readfail", nm)) or bad.ctx
    ok = st.fork(); ok.emit("read", n, q)
    ok.ctx = ok.ctx.assume(neg(B("readfail", nm))) or ok.ctx
    return [(q, None, ok), (None, Op("ioerr", ("sym", nm)), bad)]
@method
@nat("core::io::error::Error::kind", "std::io::error::Error::kind")
def n_kind(S, st, c, args, retty, argtys):
    e = S.deref(st, args[0])
    if isinstance(e, Op) and e.n == "ioerr":
        k = e.a[0]
        vs = S.P.types[retty].get("variants")
        if isinstance(k, str) and vs:
            for i, v in enumerate(vs):
                if v["name"] == k: return [(Adt(retty, i, []), st)]
        if isinstance(k, Adt) and k.ty == retty: return [(k, st)]
        if isinstance(k, tuple) and vs: return [(SymAdt(retty, ("iokind", k)), st)]
    raise Unsupported("error kind of " + show(e)[:60])
@method
@nat("core::io::error::Error::new", "std::io::error::Error::new", "core::io::error::Error::other", "std::io::error::Error::other", "alloc::io::error::Error::new", "alloc::io::error::<impl core::io::error::Error>::new", "alloc::io::error::<impl core::io::error::Error>::other")
def n_ioerr(S, st, c, args, retty, argtys):
    if c["path"].endswith("other"): return [(Op("ioerr", "Other", S.deref(st, args[0])), st)]
    k = args[0]
    if isinstance(k, Adt): return [(Op("ioerr", S.P.variants(k.ty)[k.var]["name"], S.deref(st, args[1])), st)]
    raise Unsupported("io::Error::new")
@method
@pat(r"::io::(\w+::)?Read::(read_exact|read_to_end|read_to_string|read|take|by_ref|bytes|chain)$")
def n_read(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]; out = []
    if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
    if op == "by_ref": return [(args[0], st)]
    if op == "take": return [(Op("Take", args[0], args[1]), st)]
    if op == "read_exact":
        dst = S.seq(st, args[1]); n = slen(dst)
        for q, e, s in S.take_bytes(st, args[0], n):
            if e is None:
                s = s.fork(); S.put(s, args[1], q); out.append((S.mkres(retty, True, UNIT), s))
            else: out.append((S.mkres(retty, False, e), s))
        return out
    k, r, v = S.reader(st, args[0])
    if op in ("read_to_end", "read_to_string"):
        txt = op == "read_to_string"
        cases = []
        if k == "cur":
            q = S.seq(st, v.a[0]); L = slen(q); p = v.a[1]
            ok, past = st.split(ge(L, p))
            if past is not None: cases.append((Seq(()), past))
            if ok is not None:
                ok = ok.fork(); S.I.store(ok, r.cell, r.proj, Op("Cursor", v.a[0], L))
                cases.append((slice_(q, p, sub(L, p), ok.ctx), ok))
        elif k == "sl":
            s = st.fork(); S.I.store(s, r.cell, r.proj, RefV(Seq(()))); cases.append((v, s))
        elif k == "take":
            k2, r2, v2 = S.reader(st, v.a[0])
            lim = v.a[1]
            if k2 == "cur":
                q = S.seq(st, v2.a[0]); L = slen(q); p = v2.a[1]
                ok, past = st.split(ge(L, p))
                if past is not None: cases.append((Seq(()), past))
                if ok is not None:
                    full, short = ok.split(ge(sub(L, p), lim))
                    for s, m in ((full, lim), (short, sub(L, p))):
                        if s is None: continue
                        s = s.fork(); S.I.store(s, r2.cell, r2.proj, Op("Cursor", v2.a[0], add(p, m)))
                        cases.append((slice_(q, p, m, s.ctx), s))
            elif k2 == "ext":
                nm = S.newname(st, "net")
                bad = st.fork(); bad.emit("readerr", lim)
                bad.ctx = bad.ctx.assume(B("readfail", nm)) or bad.ctx
                out.append((S.mkres(retty, False, Op("ioerr", ("sym", nm))), bad))
                good = st.fork(); good.ctx = good.ctx.assume(neg(B("readfail", nm))) or good.ctx
                short = good.assume(B("short", nm, lim)); full = good.assume(neg(B("short", nm, lim)))
                if full is not None:
                    full = full.fork() if full is good else full
                    q = mkseq([("in", nm, ZERO, lim, "u8")]); full.emit("read", lim, q); cases.append((q, full))
                if short is not None:
                    m = A(atom("app", ("shortlen", (nm,)), 0, HI63))
                    short = short.assume(gt(lim, m))
                    if short is not None:
                        q = mkseq([("in", nm, ZERO, m, "u8")]); short.emit("readshort", lim, q); cases.append((q, short))
            else: raise Unsupported("read_to_end")
        else: raise Unsupported("read_to_end of a stream")
        for q, s in cases:
            if txt:
                ok, bad = s.split(rebuild_bool("utf8", (s.ctx.norm(q),)))
                if bad is not None: out.append((S.mkres(retty, False, Op("ioerr", "InvalidData")), bad))
                if ok is None: continue
                s = ok
            s = s.fork()
            S.put(s, args[1], cat(S.seq(s, args[1]), q))
            out.append((S.mkres(retty, True, slen(q)), s))
        return out
    if op == "read":
        dst = S.seq(st, args[1]); n = slen(dst)
        if k == "cur":
            q = S.seq(st, v.a[0]); L = slen(q); p = v.a[1]
            ok, past = st.split(ge(L, p))
            if past is not None: out.append((S.mkres(retty, True, ZERO), past))
            if ok is not None:
                full, short = ok.split(ge(sub(L, p), n))
                for s, m in ((full, n), (short, sub(L, p))):
                    if s is None: continue
                    s = s.fork(); S.I.store(s, r.cell, r.proj, Op("Cursor", v.a[0], add(p, m)))
                    S.put(s, args[1], seqs.splice(dst, ZERO, m, slice_(q, p, m, s.ctx), s.ctx))
                    out.append((S.mkres(retty, True, m), s))
            return out
        if k == "ext":
            nm = S.newname(st, "net")
            m = A(atom("app", ("readlen", (nm,)), 0, HI63))
            bad = st.fork(); bad.emit("readerr", n); bad.ctx = bad.ctx.assume(B("readfail", nm)) or bad.ctx
            ok = st.fork(); ok.ctx = ok.ctx.assume(neg(B("readfail", nm))) or ok.ctx
            ok = ok.assume(ge(n, m))
            q = mkseq([("in", nm, ZERO, m, "u8")])
            ok.emit("readsome", n, q)
            S.put(ok, args[1], seqs.splice(dst, ZERO, m, q, ok.ctx))
            return [(S.mkres(retty, True, m), ok), (S.mkres(retty, False, Op("ioerr", ("sym", nm))), bad)]
    raise Unsupported("Read::" + op)
@method
@pat(r"::io::(\w+::)?BufRead::(read_until|read_line|skip_until)$")
def n_until(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]; out = []
    k, r, v = S.reader(st, args[0])
    if op != "read_until" or k not in ("cur", "sl"): raise Unsupported("BufRead::" + op)
    b = args[1]
    if k == "cur":
        q = S.seq(st, v.a[0]); L = slen(q); p = v.a[1]
        ok, past = st.split(ge(L, p))
        if past is not None: out.append((S.mkres(retty, True, ZERO), past))
    else: ok = st; q = v; p = ZERO; L = slen(q)
    if ok is None: return out
    rest = slice_(q, p, sub(L, p), ok.ctx)
    for z, s in S.find_byte(ok, rest, b):
        s = s.fork()
        n = add(z, ONE) if z is not None else sub(L, p)
        if k == "cur": S.I.store(s, r.cell, r.proj, Op("Cursor", v.a[0], add(p, n)))
        else: S.I.store(s, r.cell, r.proj, RefV(slice_(q, n, sub(L, n), s.ctx)))
        S.put(s, args[2], cat(S.seq(s, args[2]), slice_(rest, ZERO, n, s.ctx)))
        out.append((S.mkres(retty, True, n), s))
    return out
@method
def find_byte(S, st, rest, b):
    """first index of byte b in the sequence: [(index|None, st)]"""
    rest = st.ctx.norm(rest); b = st.ctx.norm(b); out = []
    n = slen(rest)
    if n.const == 0: return [(None, st)]
    cb = seqs.const_bytes(rest)
    if cb is not None and b.const is not None:
        i = cb.find(bytes([b.const]))
        return [(K(i) if i >= 0 else None, st)]
    if n.const is not None and n.const <= 4:
        cur = st
        for i in range(n.const):
            t, f = cur.split(eq(index(rest, K(i), cur.ctx), b))
            if t is not None: out.append((K(i), t))
            cur = f
            if cur is None: return out
        out.append((None, cur)); return out
    t, f = st.split(B("hasbyte", rest, b))
    if t is not None:
        z = A(atom("app", ("find", (rest, b)), 0, HI63))
        t = t.assume(gt(n, z))
        if t is not None:
            x = index(rest, z, t.ctx)
            t = t.assume(eq(x, b)) if isinstance(x, Lin) else t
            if t is not None: out.append((z, t))
    if f is not None:
        # in particular the last byte differs
        e, ne_ = f.split(gt(n, ZERO))
        if e is not None:
            x = index(rest, sub(n, ONE), e.ctx)
            if isinstance(x, Lin): e = e.assume(ne(x, b))
            if e is not None: out.append((None, e))
        if ne_ is not None: out.append((None, ne_))
    return out
W = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u24": 3, "i24": 3, "u32": 4, "i32": 4, "u48": 6, "i48": 6, "u64": 8, "i64": 8, "u128": 16, "i128": 16}
@method
def endian(S, c):
    for a in reversed(c.get("args", [])):
        if isinstance(a, int):
            s = S.P.types[a].get("s", "")
            if s.endswith("LittleEndian"): return "le"
            if s.endswith("BigEndian"): return "be"
    return "le"
@method
@pat(r"byteorder::io::ReadBytesExt::(read_\w+)$")
def n_bo(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1][5:]; en = S.endian(c); out = []
    if op in ("f32", "f64"):
        n = 4 if op == "f32" else 8
        for q, e, s in S.take_bytes(st, args[0], K(n)):
            if e is not None: out.append((S.mkres(retty, False, e), s))
            else:
                bs = seqs.byte_list(q, n)
                out.append((S.mkres(retty, True, Op("float", op, bytes_int(bs, en))), s))
        return out
    if op in ("uint", "int", "uint128"):
        n = args[1]; mx = 8 if op != "uint128" else 16
        ok, bad = st.split(ge(K(mx), n))
        if bad is not None: S.I.panic(bad, "read_uint width", show(n))
        if ok is None: return out
        # width 0 panics inside byteorder
        z, ok = ok.split(eq(n))
        if z is not None: S.I.panic(z, "read_uint width", "0")
        if ok is None: return out
        n = ok.ctx.norm(n)
        for q, e, s in S.take_bytes(ok, args[0], n):
            if e is not None: out.append((S.mkres(retty, False, e), s)); continue
            nn = s.ctx.norm(n)
            if nn.const is not None:
                x = bytes_int(seqs.byte_list(q, nn.const), en)
                if op == "int": x = signed(x, 8 * nn.const)
            else:
                if op == "int": raise Unsupported("read_int of variable width")
                x = A(atom("uint", (q, nn, en), 0, (1 << (8 * mx)) - 1))
            out.append((S.mkres(retty, True, x), s))
        return out
    if op.endswith("_into"): raise Unsupported("ReadBytesExt " + op)
    if op not in W: raise Unsupported("ReadBytesExt " + op)
    n = W[op]
    for q, e, s in S.take_bytes(st, args[0], K(n)):
        if e is not None: out.append((S.mkres(retty, False, e), s)); continue
        x = bytes_int(seqs.byte_list(q, n), en)
        if op[0] == "i": x = signed(x, 8 * n)
        out.append((S.mkres(retty, True, x), s))
    return out
@method
@pat(r"byteorder::ByteOrder::(read_\w+|write_\w+)$")
def n_byteorder(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    s0 = S.P.types[c["args"][0]].get("s", "")
    en = "be" if s0.endswith("BigEndian") else "le"
    q = S.seq(st, args[0])
    k = op.split("_", 1)[1]
    if op.startswith("read_") and k in W:
        n = W[k]
        ok, bad = st.split(ge(slen(q), K(n)))
        if bad is not None: S.I.panic(bad, "slice index", op)
        if ok is None: return []
        x = bytes_int([index(q, K(i), ok.ctx) for i in range(n)], en)
        return [(signed(x, 8 * n) if k[0] == "i" else x, ok)]
    if op.startswith("write_") and k in W:
        n = W[k]
        ok, bad = st.split(ge(slen(q), K(n)))
        if bad is not None: S.I.panic(bad, "slice index", op)
        if ok is None: return []
        S.put(ok, args[0], seqs.splice(q, ZERO, K(n), S.int_bytes(args[1], n, en), ok.ctx))
        return [(UNIT, ok)]
    raise Unsupported("ByteOrder " + op)

# ======================= writers =======================
@method
def write_bytes(S, st, ref, q, whole=True):
    """[(err|None, st)]"""
    r = S.mref(st, ref); v = S.I.read(st, r.cell, r.proj)
    if isinstance(v, Seq):
        s = st.fork(); S.I.store(s, r.cell, r.proj, cat(v, q)); return [(None, s)]
    if isinstance(v, Op) and v.n == "BufWriter":
        s = st.fork(); S.I.store(s, r.cell, r.proj, Op("BufWriter", v.a[0], cat(v.a[1], q))); return [(None, s)]
    if isinstance(v, Op) and v.n == "Cursor":
        inner = v.a[0]; p = v.a[1]
        tgt = inner if isinstance(inner, MutRef) else MutRef(r.cell, r.proj + (("a", 0),))
        cur = S.seq(st, inner); L = slen(cur); n = slen(q)
        out = []
        # bytes beyond the current end extend the vector, a gap is zero-filled
        atend, other = st.split(eq(p, L))
        if atend is not None:
            s = atend.fork(); S.I.store(s, tgt.cell, tgt.proj, cat(cur, q))
            w = S.I.read(s, r.cell, r.proj); S.I.store(s, r.cell, r.proj, Op("Cursor", w.a[0], add(p, n)))
            out.append((None, s))
        if other is not None:
            inside, rest = other.split(ge(L, add(p, n)))
            if inside is not None:
                s = inside.fork(); S.I.store(s, tgt.cell, tgt.proj, seqs.splice(cur, p, n, q, s.ctx))
                w = S.I.read(s, r.cell, r.proj); S.I.store(s, r.cell, r.proj, Op("Cursor", w.a[0], add(p, n)))
                out.append((None, s))
            if rest is not None:
                over, gap = rest.split(ge(L, p))
                for s0, mk in ((over, lambda c: cat(slice_(cur, ZERO, p, c), q)), (gap, lambda c: cat(cat(cur, Seq((("rep", ZERO, sub(p, L)),))), q))):
                    if s0 is None: continue
                    s = s0.fork(); S.I.store(s, tgt.cell, tgt.proj, mk(s.ctx))
                    w = S.I.read(s, r.cell, r.proj); S.I.store(s, r.cell, r.proj, Op("Cursor", w.a[0], add(p, n)))
                    out.append((None, s))
        return out
    # socket
    st = st.fork()
    nm = S.newname(st, "wr")
    bad = st.fork(); bad.emit("writeerr", q); bad.ctx = bad.ctx.assume(B("writefail", nm)) or bad.ctx
    ok = st.fork(); ok.emit("write" if whole else "writesome", q); ok.ctx = ok.ctx.assume(neg(B("writefail", nm))) or ok.ctx
    return [(None, ok), (Op("ioerr", ("sym", nm)), bad)]
@method
def flush_writer(S, st, ref):
    """hand the bytes held by a buffering writer on; [(err|None, st)]"""
    r = S.mref(st, ref); v = S.I.read(st, r.cell, r.proj)
    if not (isinstance(v, Op) and v.n == "BufWriter") or not v.a[1].s: return [(None, st)]
    s = st.fork(); S.I.store(s, r.cell, r.proj, Op("BufWriter", v.a[0], Seq()))
    inner = v.a[0] if isinstance(v.a[0], MutRef) else MutRef(r.cell, r.proj + (("a", 0),))
    return S.write_bytes(s, inner, v.a[1])
@method
@nat("std::io::buffered::bufwriter::BufWriter::<W>::new", "std::io::buffered::bufwriter::BufWriter::<W>::with_capacity", "alloc::io::buffered::bufwriter::BufWriter::<W>::new", "alloc::io::buffered::bufwriter::BufWriter::<W>::with_capacity")
def n_bufwriter(S, st, c, args, retty, argtys): return [(Op("BufWriter", args[-1], Seq()), st)]
@method
@pat(r"::io::buffered::bufwriter::BufWriter::<W>::(get_ref|get_mut)$")
def n_bufwriter_ref(S, st, c, args, retty, argtys):
    r = S.mref(st, args[0]); v = S.I.read(st, r.cell, r.proj)
    if v.a[1].s: raise Unsupported("direct use of a buffered writer's target")
    return [(v.a[0] if isinstance(v.a[0], MutRef) else MutRef(r.cell, r.proj + (("a", 0),)), st)]
@method
@pat(r"::io::(\w+::)?Write::(write|write_all|flush|write_fmt|by_ref)$")
def n_write(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]; out = []
    if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
    if op == "flush": return [(S.mkres(retty, e is None, UNIT if e is None else e), s) for e, s in S.flush_writer(st, args[0])]
    if op == "by_ref": return [(args[0], st)]
    if op == "write_fmt":
        for q, s in S.format(st, args[1]):
            for e, s2 in S.write_bytes(s, args[0], q): out.append((S.mkres(retty, e is None, UNIT if e is None else e), s2))
        return out
    q = S.seq(st, args[1])
    for e, s in S.write_bytes(st, args[0], q, op == "write_all"):
        if op == "write_all": out.append((S.mkres(retty, e is None, UNIT if e is None else e), s))
        elif e is not None: out.append((S.mkres(retty, False, e), s))
        else:
            if s.log and s.log[-1][0] == "writesome":
                n = A(atom("app", ("wrote", (s.log[-1],) + (len(s.log),)), 0, HI63))
                s = s.assume(ge(slen(q), n))
                out.append((S.mkres(retty, True, n), s))
            else: out.append((S.mkres(retty, True, slen(q)), s))
    return out
@method
@pat(r"byteorder::io::WriteBytesExt::(write_\w+)$")
def n_bow(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1][6:]; en = S.endian(c); out = []
    if op in ("uint", "int"):
        n = st.ctx.norm(args[2]).const
        if n is None: raise Unsupported("write_uint of variable width")
        if op == "uint":
            ok, bad = st.split(ge(K((1 << (8 * n)) - 1), args[1]))
            if bad is not None: S.I.panic(bad, "write_uint overflow")
            if ok is None: return []
            st = ok
    elif op not in W: raise Unsupported("WriteBytesExt " + op)
    else: n = W[op]
    if op in ("u24", "u48"):
        ok, bad = st.split(ge(K((1 << (8 * n)) - 1), args[1]))
        if bad is not None: S.I.panic(bad, "write_%s overflow" % op)
        if ok is None: return []
        st = ok
    for e, s in S.write_bytes(st, args[0], S.int_bytes(args[1], n, en)):
        out.append((S.mkres(retty, e is None, UNIT if e is None else e), s))
    return out

# ======================= sockets and files =======================
@method
@nat("std::net::tcp::TcpStream::connect", "std::net::tcp::TcpStream::connect_timeout")
def n_connect(S, st, c, args, retty, argtys):
    nm = S.newname(st, "conn"); a = S.deref(st, args[0])
    bad = st.fork(); bad.emit("connecterr", a); bad.ctx = bad.ctx.assume(B("connfail", nm)) or bad.ctx
    ok = st.fork(); ok.emit("connect", a); ok.ctx = ok.ctx.assume(neg(B("connfail", nm))) or ok.ctx
    return [(S.mkres(retty, True, Op("tcp", nm)), ok), (S.mkres(retty, False, Op("ioerr", ("sym", nm))), bad)]
@method
@pat(r"std::net::tcp::TcpStream::(set_read_timeout|set_write_timeout|set_nodelay|shutdown|set_nonblocking|set_ttl)$")
def n_sockopt(S, st, c, args, retty, argtys):
    op = c["path"].split("::")[-1]
    nm = S.newname(st, "opt")
    st.emit(op, S.deref(st, args[0]), args[1] if len(args) > 1 else UNIT)
    bad = st.fork(); bad.ctx = bad.ctx.assume(B("optfail", nm)) or bad.ctx
    ok = st.fork(); ok.ctx = ok.ctx.assume(neg(B("optfail", nm))) or ok.ctx
    return [(S.mkres(retty, True, UNIT), ok), (S.mkres(retty, False, Op("ioerr", ("sym", nm))), bad)]
@method
@nat("std::net::tcp::TcpStream::try_clone", "std::fs::File::try_clone")
def n_tryclone(S, st, c, args, retty, argtys):
    return [(S.mkres(retty, True, S.deref(st, args[0])), st)]
@method
@nat("std::io::buffered::bufreader::BufReader::<R>::new", "std::io::buffered::bufreader::BufReader::<R>::with_capacity", "alloc::io::buffered::bufreader::BufReader::<R>::new")
def n_bufreader(S, st, c, args, retty, argtys): return [(Op("BufReader", args[-1]), st)]
@method
@nat("std::fs::File::open")
def n_open(S, st, c, args, retty, argtys):
    nm = S.newname(st, "file")
    bad = st.fork(); bad.ctx = bad.ctx.assume(B("openfail", nm)) or bad.ctx
    ok = st.fork(); ok.ctx = ok.ctx.assume(neg(B("openfail", nm))) or ok.ctx
    return [(S.mkres(retty, True, Op("file", nm)), ok), (S.mkres(retty, False, Op("ioerr", ("sym", nm))), bad)]
