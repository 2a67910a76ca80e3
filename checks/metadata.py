"""Optional metadata of table maps."""
from checks.tables import *
DC = "metadata::default_charset::DefaultCharset"; TMDP = TMD + "::parse"
NUMERIC = (1, 2, 9, 3, 8, 4, 5, 246)
def u32(x):
    if Z.test(ge(x, K(1 << 32))): raise DontCare()
    return x
def ints(cu):
    q = cu.q
    def body(pos, acc):
        if not Z.test(lt(pos, slen(q))): raise Brk(acc)
        c = Cur(q, pos); x = u32(Z.lenenc(c))
        return c.pos, cat(acc, els([x]))
    return Z.loop(body, cu.pos, Seq(()))[0]
def pairs_(cu):
    q = cu.q
    def body(pos, acc):
        if not Z.test(lt(pos, slen(q))): raise Brk(acc)
        c = Cur(q, pos); x = u32(Z.lenenc(c)); y = u32(Z.lenenc(c))
        return c.pos, cat(acc, els([Tup((x, y))]))
    return Z.loop(body, cu.pos, Seq(()))[0]
def strs(cu):
    q = cu.q
    def body(pos, acc):
        if not Z.test(lt(pos, slen(q))): raise Brk(acc)
        c = Cur(q, pos); x = Z.lenstr(c)
        return c.pos, cat(acc, els([x]))
    return Z.loop(body, cu.pos, Seq(()))[0]
def values(cu):
    q = cu.q
    def body(pos, acc):
        if not Z.test(lt(pos, slen(q))): raise Brk(acc)
        c = Cur(q, pos); n = Z.lenenc(c)
        def inner(k, p, xs):
            if not Z.test(lt(k, n)): raise Brk(p, xs)
            d = Cur(q, p); x = Z.lenstr(d)
            return add(k, ONE), d.pos, cat(xs, els([x]))
        p, xs = Z.loop(inner, ZERO, c.pos, Seq(()))
        return p, cat(acc, els([xs]))
    return Z.loop(body, cu.pos, Seq(()))[0]
def charset(cu):
    d = u32(Z.lenenc(cu))
    fs = [f[0] for f in Z.P.variants(Z.ty(DC))[0]["fields"]]
    return Z.struct(DC, **{fs[0]: d, fs[1]: pairs_(cu)})
def msb(cu, n):
    m = (n + 7) // 8; q = Z.take(cu, m)
    return els([bit_of(index(q, K(i // 8), Z.ctx), 7 - i % 8) for i in range(n)])
ENTRY = {1: ("signedness", lambda cu, ts: msb(cu, sum(t in NUMERIC for t in ts))), 2: ("default_charset", lambda cu, ts: charset(cu)), 3: ("column_charsets", lambda cu, ts: ints(cu)),
         4: ("column_names", lambda cu, ts: strs(cu)), 5: ("set_string_values", lambda cu, ts: values(cu)), 6: ("enum_string_values", lambda cu, ts: values(cu)),
         7: ("geometry_types", lambda cu, ts: ints(cu)), 8: ("simple_primary_keys", lambda cu, ts: ints(cu)), 9: ("primary_keys_with_prefix", lambda cu, ts: pairs_(cu)),
         10: ("enum_and_set_default_charset", lambda cu, ts: charset(cu)), 11: ("enum_and_set_column_charsets", lambda cu, ts: ints(cu)), 12: ("column_visibility", lambda cu, ts: msb(cu, len(ts)))}
def one_entry(env, code, ts, label="", cut=False):
    def setup(I, st, av):
        v, q, p = cur_of(I, st, av[0])
        val, n, okc = contracts.lenenc_terms(st.ctx, q, add(p, ONE))
        st = st.assume(ge(slen(q), add(p, K(2))))
        st = st.assume(eq(index(q, p, st.ctx, "u8"), K(code))) if st else st
        # nothing follows the entry
        if st: st = st.assume(ge(add(add(add(p, ONE), n), val), add(slen(q), ONE)) if cut else eq(slen(q), add(add(add(p, ONE), n), val)))
        if st is None: raise Unsupported("no such payload")
        return st
    def sp(cu, types):
        Z.u8(cu); n = Z.lenenc(cu); q = Z.take(cu, n)
        f = {}
        if code not in ENTRY: raise SErr("type")
        name, rd = ENTRY[code]
        for nm, _ in ENTRY.values():
            T = Z.fty(TMD, nm)
            f[nm] = Z.enum(T, "Some", rd(Cur(q, ZERO), ts)) if nm == name else Z.enum(T, "None")
        return Z.struct(TMD, **f)
    env.start0 = False
    env.concrete = 136 if len(ts) > 16 else None
    env.decode(TMDP, sp, name="%s (one entry of type %d%s)" % (TMDP, code, label), args={1: RefV(const_seq(bytes(ts)))}, stubs=dict(LEN), setup=setup)
    env.concrete = None
def sequence(env, codes, n, ts):
    """one entry of each of the given types, of n bytes each"""
    def setup(I, st, av):
        v, q, p = cur_of(I, st, av[0])
        st = st.assume(ge(slen(q), K(len(codes) * n))).fork()
        bs = cat(*[cat(els([K(code), K(n)]), els([index(q, K(i * n + j), st.ctx, "u8") for j in range(n)])) for i, code in enumerate(codes)])
        I.store(st, av[0].cell, av[0].proj, Op("Cursor", RefV(bs), ZERO))
        return st
    def sp(cu, types):
        f = {}
        for code in codes:
            Z.u8(cu); Z.lenenc(cu); q = Z.take(cu, K(n)); name, rd = ENTRY[code]
            f[name] = Z.enum(Z.fty(TMD, name), "Some", rd(Cur(q, ZERO), ts))
        for nm, _ in ENTRY.values():
            if nm not in f: f[nm] = Z.enum(Z.fty(TMD, nm), "None")
        return Z.struct(TMD, **f)
    env.start0 = False; env.concrete = 40
    env.decode(TMDP, sp, name="%s (%d byte entries of types %s)" % (TMDP, n, list(codes)), args={1: RefV(const_seq(bytes(ts)))}, setup=setup)
    env.concrete = None
TYPES = list(range(20)) + list(range(245, 256))
def ob_metadata(env):
    jobs = [lambda c=c: one_entry(env, c, [3, 15]) for c in (2, 3, 9, 4, 5, 6, 7, 8, 10, 11)]
    jobs += [lambda c=c: one_entry(env, c, [3, 15]) for c in (0, 13, 14, 128, 255)]
    for t in TYPES: jobs.append(lambda t=t: one_entry(env, 1, [t], ", a column of type %d" % t))
    mixed = [TYPES, TYPES[::-1]] + [[NUMERIC[i % 8] if i % 3 or n % 2 else 15 for i in range(n)] for n in (0, 7, 8, 9, 10, 15, 16, 17, 24, 33, 64, 65, 100)]
    for ts in mixed:
        jobs.append(lambda ts=ts: one_entry(env, 1, ts, ", %d columns" % len(ts)))
        jobs.append(lambda ts=ts: one_entry(env, 12, ts, ", %d columns" % len(ts)))
    all_ = list(ENTRY)
    # every type before and after every other one
    all_ = list(ENTRY)
    jobs += [lambda: sequence(env, all_, 1, [3, 15]), lambda: sequence(env, all_[::-1], 1, [3, 15]), lambda: sequence(env, all_[1::2] + all_[::2], 1, [3, 15, 2]), lambda: sequence(env, all_, 0, [])]
    jobs += [lambda a=a, b=b: sequence(env, [a, b], 2, [3, 15]) for a in all_ for b in all_ if a != b]
    env.parallel(jobs, lambda f: f())
