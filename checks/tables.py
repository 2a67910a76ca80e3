"""Table maps."""
from checks.rows import *
MET = TM + "::parse_metadata"; TMD = "metadata::table_metadata::TableMetadata"
ONE_ = [255, 245, 249, 250, 251, 252, 4, 5, 17, 18, 19]; LE_ = [16, 15, 253, 246]; BE_ = [247, 248, 254]
def vecty(x):
    for i, t in enumerate(Z.P.types):
        if t["k"] == "adt" and t["path"] == "alloc::vec::Vec" and t["args"] and t["args"][0] == x: return i
    raise Unsupported("no vector type")
def column_meta(cu, types):
    if MET in Z.I.stubs: return z_consuming("meta", vecty(Z.P.byname["u16"]), cu, types)
    q = cu.q
    def body(i, pos, acc):
        if not Z.test(lt(i, slen(types))): raise Brk(acc, pos)
        c = Cur(q, pos); m = one_meta(c, index(types, i, Z.ctx, "u8"))
        return add(i, ONE), c.pos, cat(acc, els([m]))
    acc, pos = Z.loop(body, ZERO, cu.pos, Seq(()))
    cu.pos = pos
    return acc
def one_meta(cu, t):
    k = Z.switch(t, ONE_ + LE_ + BE_)
    if k is None:
        if not (Z.test(lt(t, K(20))) or Z.test(ge(t, K(245)))): raise SErr("type")
        return ZERO
    return Z.u8(cu) if k in ONE_ else Z.le(cu, 2) if k in LE_ else Z.be(cu, 2)
def ob_table_map(env):
    path = TM + "::parse"
    stubs = install(env, BM)
    for p, n in ((MET, "meta"), (TMD + "::parse", "tablemeta")):
        if p in env.P.bypath: stubs[p] = consuming(n, None)
    def sp(cu):
        tid = Z.le(cu, 6); cu.pos = add(cu.pos, K(2))
        if Z.test(gt(cu.pos, slen(cu.q))): raise SErr("eof")
        names = []
        for i in range(2):
            n = Z.u8(cu); names.append(Z.text(cu, n)); cu.pos = add(cu.pos, ONE)
            if Z.test(gt(cu.pos, slen(cu.q))): raise SErr("eof")
        n = Z.lenenc(cu)
        types = Z.take(cu, n)
        Z.lenenc(cu)
        metas = column_meta(cu, types)
        nulls = bitmap(cu, n)
        T = Z.fty(TM, "table_metadata")
        if Z.test(lt(cu.pos, slen(cu.q))):
            inner = Z.P.variants(T)[1]["fields"][0][1]
            if TMD + "::parse" not in Z.I.stubs: raise Unsupported("table metadata without its decoder")
            md = Z.enum(T, "Some", z_consuming("tablemeta", inner, cu, types))
        else: md = Z.enum(T, "None")
        return Z.struct(TM, table_id=tid, database_name=names[0], table_name=names[1], column_types=types, column_metadata=metas, null_bitmap=nulls, table_metadata=md)
    env.start0 = True
    env.decode(path, sp, stubs=stubs)
def ob_meta(env):
    env.start0 = False
    env.decode(MET, lambda cu, t: column_meta(cu, deref(t)), public=False, pos=True)
def every_pair(xs):
    """a sequence in which every two of xs follow each other somewhere"""
    n = len(xs); left = {x: list(xs) for x in xs}; st = [xs[0]]; out = []
    while st:
        if left[st[-1]]: st.append(left[st[-1]].pop())
        else: out.append(st.pop())
    return out[::-1]
def ob_meta_long(env):
    """columns of given types: every type after every other"""
    types = every_pair(ONE_ + LE_ + BE_ + [3, 12])
    def sp(cu, t): return els([one_meta(cu, K(x)) for x in types])
    env.start0 = True
    q = const_seq(bytes(types))
    env.concrete = len(types) + 8
    env.decode(MET, sp, name="%s (%d columns)" % (MET, len(types)), args={1: RefV(q)}, public=False, pos=True)
    env.concrete = None
