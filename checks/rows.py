"""Rows events: reference semantics and contracts."""
from checks.common import *
import contracts
Z = Proxy()
HI63 = (1 << 63) - 1
R = "events::row_events::"
BM = "extensions::read_bitmap_little_endian"
RP = R + "row_parser::"
ROW = RP + "parse_row"; COUNT = RP + "get_bits_number"; CELL = RP + "parse_cell"
TM = "events::table_map_event::TableMapEvent"; RD = R + "row_data::RowData"; MV = R + "mysql_value::MySqlValue"
URD = R + "row_data::UpdateRowData"
def norm(ctx, *xs): return tuple(ctx.norm(x) for x in xs)
# ---- contracts (each verified by its own obligation)
def cur_of(I, st, a):
    v = I.read(st, a.cell, a.proj)
    return v, I.nat.seq(st, v.a[0]), v.a[1]
def bitmap_terms(P, ctx, q, p, n):
    q, p, n = norm(ctx, q, p, n)
    bt = next(i for i, t in enumerate(P.types) if t["k"] == "bool")
    return Seq((("app", "bitmap", (q, p, n), n, bt),))
def nbytes(n): return fdiv(add(n, K(7)), 8)
def stub_bitmap(I, st, c, args, retty, argtys):
    v, q, p = cur_of(I, st, args[0]); n = args[1]; out = []
    m = nbytes(st.ctx.norm(n))
    ok, bad = st.split(ge(slen(q), add(p, m)))
    if ok is not None:
        ok = ok.fork(); I.store(ok, args[0].cell, args[0].proj, Op("Cursor", v.a[0], add(p, m)))
        out.append((I.nat.mkres(retty, True, bitmap_terms(I.P, ok.ctx, q, p, n)), ok))
    if bad is not None: out.append((I.nat.mkres(retty, False, Op("ioerr", "eof")), bad))
    return out
def count_term(ctx, q):
    q = ctx.norm(q)
    return A(atom("app", ("count", (q,)), 0, HI63))
def stub_count(I, st, c, args, retty, argtys):
    q = I.nat.seq(st, args[0]); x = count_term(st.ctx, q)
    st = st.assume(ge(slen(q), x)) or st
    return [(x, st)]
def consuming(name, keyf, lo=0):
    """contract of a decoder that consumes some bytes"""
    def stub(I, st, c, args, retty, argtys):
        v, q, p = cur_of(I, st, args[0])
        key = (name,) + norm(st.ctx, q, p) + tuple(st.ctx.norm(I.nat.deref(st, a) if isinstance(a, (RefV, MutRef)) else a) for a in args[1:])
        n = A(atom("app", ("consumed", key), lo, HI63)); out = []
        t = I.P.types[retty]["args"][0]
        ok, bad = st.split(B("decodes", *key))
        if ok is not None:
            ok = ok.assume(ge(slen(q), add(p, n)))
            if ok is not None:
                ok = ok.fork(); I.store(ok, args[0].cell, args[0].proj, Op("Cursor", v.a[0], add(p, n)))
                out.append((I.nat.mkres(retty, True, I.P.mksym(t, key)), ok))
        if bad is not None:
            bad = bad.fork(); I.store(bad, args[0].cell, args[0].proj, Op("Cursor", v.a[0], A(atom("sym", (("errpos",) + key,), 0, HI63))))
            out.append((I.nat.mkres(retty, False, Op("anyerr", name, key)), bad))
        return out
    return stub
def z_consuming(name, ty, cu, *args):
    key = (name,) + norm(Z.ctx, cu.q, cu.pos, *args)
    if not Z.test(B("decodes", *key)): raise SErr(name)
    n = A(atom("app", ("consumed", key), 0, HI63))
    n = next((A(a) for a in [atom("app", ("consumed", key), CELLMIN.get(name, 0), HI63)]), n)
    Z.assume(ge(slen(cu.q), add(cu.pos, n)))
    cu.pos = add(cu.pos, n)
    return Z.P.mksym(ty, key)
CELLMIN = {}
ACTUAL = R + "actual_string_type::get_actual_string_type"
def actual_terms(ty, meta): return A(atom("app", ("actualty", (ty, meta)), 0, 255)), A(atom("app", ("actualmeta", (ty, meta)), 0, 65535))
def stub_actual(I, st, c, args, retty, argtys):
    t, m = args; a, b = actual_terms(*norm(st.ctx, I.read(st, t.cell, t.proj), I.read(st, m.cell, m.proj)))
    st = st.fork(); I.store(st, t.cell, t.proj, a); I.store(st, m.cell, m.proj, b)
    return [(Tup(()), st)]
def install(env, *names):
    r = dict(LEN)
    for p, f in ((BM, stub_bitmap), (COUNT, stub_count), (ROW, consuming("row", None)), (CELL, consuming("cell", None)), (ACTUAL, stub_actual)):
        if p in names and p in env.P.bypath: r[p] = f
    return r
# ---- reference
def bitmap(cu, n):
    m = nbytes(Z.ctx.norm(n))
    if not Z.test(ge(slen(cu.q), add(cu.pos, m))): raise SErr("eof")
    if BM in Z.I.stubs: r = bitmap_terms(Z.P, Z.ctx, cu.q, cu.pos, n)
    else:
        k = Z.ctx.norm(n).const
        if k is None: raise Unsupported("bitmap of variable size without its reader")
        r = els([bit_of(index(cu.q, add(cu.pos, K(i // 8)), Z.ctx), i % 8) for i in range(k)])
    cu.pos = add(cu.pos, m)
    return r
def bit_of(b, i): return Bo(c_of(ne(Z.bits(b, 1 << i))))
def c_of(c): return c
def mkb(c): 
    return Bo(c) if not isinstance(c, bool) else Bo(c)
def count(q):
    if COUNT in Z.I.stubs: return count_term(Z.ctx, q)
    n = Z.ctx.norm(slen(q)).const
    if n is not None:
        r = ZERO
        for i in range(n):
            if Z.test(cond(index(q, K(i), Z.ctx))): r = add(r, ONE)
        return r
    def body(k, acc):
        if not Z.test(lt(k, slen(q))): raise Brk(acc)
        return add(k, ONE), add(acc, ONE if Z.test(cond(index(q, k, Z.ctx))) else ZERO)
    r, = Z.loop(body, ZERO, ZERO)
    return r
def cond(b): return b.c if isinstance(b, Bo) else b
def head(cu, version):
    """table id, flags, number of columns"""
    tid = Z.le(cu, 6); fl = Z.le(cu, 2)
    if version == 2:
        n = Z.le(cu, 2)
        if Z.test(lt(n, K(2))): raise SErr("extra data")
        # extra data beyond the end leaves nothing to read
        cu.pos = add(cu.pos, sub(n, K(2)))
        if Z.test(gt(cu.pos, slen(cu.q))): raise SErr("eof")
    return tid, fl, Z.lenenc(cu)
def table(tables, tid):
    """latest definition of the table id"""
    m = Z.ctx.norm(tables)
    rs = Z.nat.map_find(Z.st, m, Z.ctx.norm(tid))
    w = Z.pick([(w, s) for w, s in rs])
    if w is None: raise SErr("no table map")
    return Z.nat.map_value(Z.st, m, Z.ctx.norm(tid), w, Z.ty(TM))
def one_row(cu, t, present, n):
    if ROW in Z.I.stubs:
        return z_consuming("row", Z.ty(RD), cu, t, present, n)
    return row(cu, t, present, n)
def rows(cu, t, pres):
    """rows until the payload ends; pres: presence bitmaps of the images of a row"""
    types = Z.field(t, "column_types")
    for p in pres:
        if not Z.test(eq(slen(p), slen(types))): raise SErr("columns")
    ns = [count(p) for p in pres]
    q = cu.q
    def body(pos, acc):
        if not Z.test(lt(pos, slen(q))): raise Brk(acc)
        for i, n in enumerate(ns):
            if Z.test(ne(n)): break
        else: raise SErr("no columns")
        c = Cur(q, pos); im = [one_row(c, t, p, n) for p, n in zip(pres, ns)]
        x = im[0] if len(im) == 1 else Z.struct(URD, before_update=im[0], after_update=im[1])
        return c.pos, cat(acc, els([x]))
    acc, = Z.loop(body, cu.pos, Seq(()))
    return acc
def row(cu, t, present, n):
    types = Z.field(t, "column_types"); metas = Z.field(t, "column_metadata")
    nulls = bitmap(cu, n); q = cu.q
    vt = Z.P.elemty(Z.fty(RD, "cells"))
    def body(i, skipped, pos, acc):
        if not Z.test(lt(i, slen(types))): raise Brk(acc, pos)
        if not Z.test(cond(index(present, i, Z.ctx))): return add(i, ONE), add(skipped, ONE), pos, cat(acc, els([Z.none(vt)]))
        if Z.test(cond(index(nulls, sub(i, skipped), Z.ctx))): return add(i, ONE), skipped, pos, cat(acc, els([Z.none(vt)]))
        c = Cur(q, pos)
        ty, meta = actual(index(types, i, Z.ctx), index(metas, i, Z.ctx, "u16"))
        v = z_consuming("cell", Z.ty(MV), c, ty, meta)
        return add(i, ONE), skipped, c.pos, cat(acc, els([Z.some(vt, v)]))
    acc, pos = Z.loop(body, ZERO, ZERO, cu.pos, Seq(()))
    cu.pos = pos
    return Z.struct(RD, cells=acc)
KNOWN = list(range(20)) + list(range(245, 256))
def actual(ty, meta):
    """type and metadata of a column whose type may hide behind the string type (MySQL bug 37426)"""
    k = Z.switch(ty, [254])
    if k is None:
        if not (Z.test(lt(ty, K(20))) or Z.test(ge(ty, K(245)))): raise SErr("type")
        return ty, meta
    if ACTUAL in Z.I.stubs: return actual_terms(*norm(Z.ctx, ty, meta))
    return real(ty, meta)
def real(ty, meta):
    if Z.test(lt(meta, K(256))): return ty, meta
    b0, b1 = fdiv(meta, 256), fmod(meta, 256)
    if Z.test(eq(Z.bits(b0, 0x30), K(0x30))):
        if Z.switch(b0, [247, 248]) is not None: return b0, b1
        return ty, b1
    # a long CHAR: bits 4 and 5 of the length are stored inverted in the type byte
    return Z.I.bitconst("BitOr", Z.ctx.norm(b0), 0x30, 255), add(b1, scale(sub(K(0x30), Z.bits(b0, 0x30)), 16))
KIND = {"Write": 1, "Update": 2, "Delete": 1}
def ob_rows_event(env, kind, version, stubs=None):
    path = R + "%s_rows_event::%sRowsEvent::parse" % (kind.lower(), kind)
    def sp(cu, tables, ver):
        tid, fl, n = head(cu, version)
        pres = [bitmap(cu, n) for i in range(KIND[kind])]
        t = table(deref(tables), tid)
        rs = rows(cu, t, pres)
        f = dict(table_id=tid, flags=fl, columns_number=n, rows=rs)
        if kind == "Update": f.update(columns_before_update=pres[0], columns_after_update=pres[1])
        else: f["columns_present" if kind == "Write" else fieldname(path)] = pres[0]
        return Z.struct(path[:-7], **f)
    env.start0 = True
    env.decode(path, sp, name="%s (rows version %d)" % (path, version), args={2: K(version)}, stubs=stubs if stubs is not None else install(env, BM, COUNT, ROW))
def fieldname(path):
    fs = [f[0] for f in Z.P.variants(Z.ty(path[:-7]))[0]["fields"] if f[0] not in ("table_id", "flags", "columns_number", "rows")]
    return fs[0]
def ob_row(env, stubs=None):
    env.start0 = False
    def few(I, st, av):
        # in the bounded variant the columns are of two fixed types
        if env.unroll is None: return st
        i = [f[0] for f in I.P.variants(tyof(env, TM))[0]["fields"]].index("column_types")
        q = I.nat.seq(st, I.P.field(deref(av[1]), i, 0))
        for k, t in enumerate((254, 3, 3)[:env.unroll]):
            a, b = st.split(gt(slen(q), K(k)))
            st = st.assume(eq(index(q, K(k), st.ctx), K(t))) or st
        return st
    env.decode(ROW, lambda cu, t, present, n: row(cu, deref(t), deref(present), n), stubs=stubs or install(env, BM, CELL, ACTUAL), public=False, pos=True, setup=few, panics=False)

def ob_actual(env):
    def sp(*a):
        ty, meta = real(*env.args0[:2]) if Z.switch(env.args0[0], [254]) is not None else (None, None)
        if ty is None: raise DontCare()
        return None
    def chk(z, st, val, err):
        ty, meta = env.args0
        ty, meta = real(ty, meta)
        for a, w, n in ((env.av0[0], ty, "type"), (env.av0[1], meta, "metadata")):
            g = env.I0.read(st, a.cell, a.proj)
            if not eqv(z, g, w): raise Mismatch("actual column " + n, g, w)
    env.start0 = False
    env.decode(ACTUAL, sp, public=False, check=chk)
SIZES = (0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33)
def ob_bitmap(env):
    env.start0 = False
    for n in SIZES:
        env.decode(BM, lambda cu, k: bitmap(cu, K(n)), name="%s (%d bits)" % (BM, n), args={1: K(n)}, public=False, pos=True)
def ob_count(env):
    """number of set bits, by number of bits"""
    bt = next(i for i, t in enumerate(env.P.types) if t["k"] == "bool")
    for n in (0, 1, 2, 3, 5):
        q = Seq([("el", Bo(B("sym", "bit%d" % i))) for i in range(n)])
        env.decode(COUNT, lambda b: count(deref(b)), name="%s (%d bits)" % (COUNT, n), args={0: RefV(q)}, public=False)
def ob_row_long(env):
    """a row of many columns with given presence and null bits"""
    bt = next(i for i, t in enumerate(env.P.types) if t["k"] == "bool")
    n = 40; present = [(i * 7 + i // 5) % 3 != 0 for i in range(n)]; m = sum(present)
    nulls = [(j * 5 + j // 8) % 4 == 1 for j in range(m)]
    types = [(3, 254, 15, 252)[i % 4] for i in range(n)]
    def bits(I, st, c, args, retty, argtys):
        # the bitmap reader, for a payload that holds these bits
        v, q, p = cur_of(I, st, args[0]); k = st.ctx.norm(args[1]).const
        if k != m: return stub_bitmap(I, st, c, args, retty, argtys)
        ok, bad = st.split(ge(slen(q), add(p, nbytes(K(k))))); out = []
        if ok is not None:
            ok = ok.fork(); I.store(ok, args[0].cell, args[0].proj, Op("Cursor", v.a[0], add(p, nbytes(K(k)))))
            out.append((I.nat.mkres(retty, True, els([mkbo(b) for b in nulls])), ok))
        if bad is not None: out.append((I.nat.mkres(retty, False, Op("ioerr", "eof")), bad))
        return out
    def sp(cu, t, pr, k):
        t = deref(t); nb = nbytes(K(m))
        if not Z.test(ge(slen(cu.q), add(cu.pos, nb))): raise SErr("eof")
        cu.pos = add(cu.pos, nb); acc = []; j = 0; vt = Z.P.elemty(Z.fty(RD, "cells")); metas = Z.field(t, "column_metadata")
        for i in range(n):
            if not present[i] or nulls[j]: acc.append(Z.none(vt)); j += present[i]; continue
            j += 1; ty, meta = actual(K(types[i]), index(metas, K(i), Z.ctx, "u16"))
            acc.append(Z.some(vt, z_consuming("cell", Z.ty(MV), cu, ty, meta)))
        return Z.struct(RD, cells=els(acc))
    st = install(env, BM, CELL, ACTUAL)
    if len(st) < len(LEN) + 3: return     # decoded without these helpers
    st[BM] = bits
    tm = tyof(env, TM)
    def table(I, s):
        v = I.P.mksym(tm, ("table_map",)); fs = [f[0] for f in I.P.variants(tm)[0]["fields"]]
        f = [I.P.field(v, i, 0) for i in range(len(fs))]
        f[fs.index("column_types")] = els([K(t) for t in types])
        f[fs.index("column_metadata")] = els([A(atom("sym", (("metadata", i),), 0, 65535)) for i in range(n)])
        return RefV(Adt(tm, 0, f))
    env.start0 = False
    env.decode(ROW, sp, name=ROW + " (%d columns)" % n, args={1: table, 2: RefV(els([mkbo(b) for b in present])), 3: K(m)}, stubs=st, public=False, pos=True)
