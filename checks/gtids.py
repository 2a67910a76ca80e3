"""GTID sets and lists."""
from checks.rows import *
import spec as SP
US = "providers::mysql::gtid::uuid_set::UuidSet"; IV = "providers::mysql::gtid::interval::Interval"; MG = "providers::mysql::gtid::gtid::Gtid"
UU = "providers::mysql::gtid::uuid::Uuid"; GS = "providers::mysql::gtid::gtid_set::GtidSet"
AG = "providers::mariadb::gtid::gtid::Gtid"; GL = "providers::mariadb::gtid::gtid_list::GtidList"
M64 = (1 << 64) - 1
def holder(P, path, **kw):
    z = SP.S.__new__(SP.S); z.P = P
    return z.struct(path, **kw)
def sym64(nm): return A(atom("sym", (nm,), 0, M64))
def interval(P, s, e): return holder(P, IV, start=s, end=e)
def canonical(st, xs):
    for i, (s, e) in enumerate(xs):
        st = st and st.assume(le(s, e))
        if i: st = st and st.assume(ge(s, add(xs[i - 1][1], K(2))))
    if st is None: raise Unsupported("no canonical set")
    return st
def ob_uuid_add(env, n):
    """an id added to n canonical intervals"""
    P = env.P; path = US + "::add_gtid"
    xs = [(sym64("s%d" % i), sym64("e%d" % i)) for i in range(n)]
    def go():
        src = P.mksym(tyof(env, UU), ("source",)); other = P.mksym(tyof(env, UU), ("server",)); t = sym64("t")
        v = holder(P, US, source_id=src, intervals=els([interval(P, s, e) for s, e in xs]))
        g = holder(P, MG, source_id=other, transaction_id=t)
        UT = tyof(env, US)
        I, outs, av = env.analyse(path, {0: lambda I, st: MutRef(I.newcell(st, v, UT)), 1: g}, setup=lambda I, st, av: canonical(st, xs))
        def run(z):
            same = z.nat.equal(z.st, z.field(src, "data"), z.field(other, "data"))
            if not z.test(mkbo(same)): return xs, None
            for i, (s, e) in enumerate(xs):
                if z.test(and_(le(s, t), le(t, e))): return xs, False
            # before which one it belongs
            k = 0
            while k < n and z.test(gt(t, xs[k][1])): k += 1
            left = k > 0 and z.test(eq(add(xs[k - 1][1], ONE), t)); right = k < n and z.test(eq(add(t, ONE), xs[k][0]))
            new = (xs[k - 1][0] if left else t, xs[k][1] if right else t)
            return xs[:k - left] + [new] + xs[k + right:], True
        for val, st in outs:
            env.rep.paths += 1
            def one(z):
                env.rep.cases += 1
                want, res = run(z)
                isok, r = outcome(z, val)
                got = I.read(st, av[0].cell, av[0].proj)
                if res is None:
                    if isok: raise Mismatch("a GTID of another server is accepted", r)
                elif not isok: raise Mismatch("an error although the GTID belongs to the server", r)
                elif not eqv(z, r, mkbo(res)): raise Mismatch("wrong answer to whether the id was new", r, mkbo(res))
                if not eqv(z, z.field(got, "source_id"), src): raise Mismatch("the server id changes", got)
                w = els([interval(P, s, e) for s, e in want])
                if not eqv(z, z.field(got, "intervals"), w): raise Mismatch("wrong intervals", z.field(got, "intervals"), w)
            try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], one)
            except Mismatch as m: env.rep.bad("%s (%d intervals)" % (path, n), m, st)
        for p in I.panics: check_panic(I, p, lambda z: "a result", env.rep, "%s (%d intervals)" % (path, n))
    env.concrete = 3 * n + 8
    env.obligation("%s (%d intervals)" % (path, n), go)
    env.concrete = None
def and_(a, b): return B("and", a, b)
UADD = US + "::add_gtid"
def stub_uadd(I, st, c, args, retty, argtys):
    S = I.nat; r = args[0]; g = deref(args[1]); st = st.fork()
    s = I.read(st, r.cell, r.proj)
    I.store(st, r.cell, r.proj, Op("uadded", s, g))
    return [(S.mkres(retty, True, Bo(B("uisnew", s, g))), st)]
def ob_set_add(env):
    P = env.P; path = GS + "::add_gtid"
    def go():
        GT = tyof(env, GS); data = P.mksym(next(f[1] for f in P.variants(tyof(env, UU))[0]["fields"] if f[0] == "data"), ("server",))
        t = sym64("t")
        def gtid(I, st):
            import spec
            z = spec.S(I, st, (), []); spec.ACTIVE[0] = z
            return holder(P, MG, source_id=uuid(data), transaction_id=t)
        I, outs, av = env.analyse(path, {0: lambda I, st: MutRef(I.newcell(st, SymAdt(GT, ("set",)), GT)), 1: gtid}, stubs={UADD: stub_uadd})
        def one(v, st, z):
            env.rep.cases += 1
            g = env.args0[1]; src = z.field(g, "source_id"); key = z.field(src, "uuid")
            base = SymAdt(GT, ("set",)); m0 = z.field(base, "uuid_sets")
            vty = next(i for i, t in enumerate(P.types) if t["k"] == "adt" and t["path"] == US)
            got = z.field(I.read(st, av[0].cell, av[0].proj), "uuid_sets")
            if not (isinstance(got, Op) and got.n == "map" and got.a[0] == m0.a[0]): raise Mismatch("the sets of other servers are lost", got)
            value = None
            for k, x in got.a[1]:
                if not eqv(z, z.nat.deref(st, k), key): raise Mismatch("the set of another server changes", k, key)
                value = x
            isok, r = outcome(z, v)
            if not isok: raise Mismatch("an error is returned although the id can be added", r)
            if value is None: raise Mismatch("the id is not added", got)
            if z.test(B("has", m0.a[0], z.ctx.norm(key))):
                old = z.nat.map_value(st, m0, z.ctx.norm(key), "base", vty); alone = None
            else:
                old = z.struct(US, source_id=src, intervals=Seq(())); alone = z.struct(US, source_id=src, intervals=els([interval(P, t, t)]))
            if alone is not None and eqv(z, value, alone):
                if not eqv(z, r, TRUE): raise Mismatch("wrong answer to whether the id was new", r)
                return
            if not (isinstance(value, Op) and value.n == "uadded"): raise Mismatch("the id is not added to its server's set", value)
            if not eqv(z, value.a[0], old): raise Mismatch("the id is added to another set", value.a[0], old)
            if not eqv(z, value.a[1], g): raise Mismatch("another id is added", value.a[1], g)
            if not eqv(z, r, Bo(B("uisnew", value.a[0], value.a[1]))): raise Mismatch("wrong answer to whether the id was new", r)
        for v, st in outs:
            env.rep.paths += 1
            try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], lambda z: one(v, st, z))
            except Mismatch as m: env.rep.bad(path, m, st)
        for p in I.panics: check_panic(I, p, lambda z: "a result", env.rep, path)
    env.obligation(path, go)
def ob_list_add(env, n):
    """a GTID added to a list of n entries of different domains"""
    P = env.P; path = GL + "::add_gtid"
    def u(nm, b): return A(atom("sym", (nm,), 0, (1 << b) - 1))
    xs = [(u("d%d" % i, 32), u("s%d" % i, 32), u("q%d" % i, 64)) for i in range(n)]
    def entry(x): return holder(P, AG, domain_id=x[0], server_id=x[1], sequence=x[2])
    def distinct(I, st, av):
        sts = [st]
        for i in range(n):
            for j in range(i): sts = [s2 for s in sts for s2 in [s.assume(ne(xs[i][0], xs[j][0]))] if s2]
        if not sts: raise Unsupported("no such list")
        return sts[0]
    def go():
        g = (u("d", 32), u("s", 32), u("q", 64)); LT = tyof(env, GL)
        v = holder(P, GL, gtids=els([entry(x) for x in xs]))
        I, outs, av = env.analyse(path, {0: lambda I, st: MutRef(I.newcell(st, v, LT)), 1: entry(g)}, setup=distinct)
        for val, st in outs:
            env.rep.paths += 1
            def one(z):
                env.rep.cases += 1
                k = next((i for i, x in enumerate(xs) if z.test(eq(x[0], g[0]))), None)
                want = xs + [g] if k is None else xs[:k] + [g] + xs[k + 1:]
                got = z.field(I.read(st, av[0].cell, av[0].proj), "gtids"); w = els([entry(x) for x in want])
                if not eqv(z, got, w): raise Mismatch("wrong entries", got, w)
                if not eqv(z, val, mkbo(k is None)): raise Mismatch("wrong answer to whether the domain was new", val)
            try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], one)
            except Mismatch as m: env.rep.bad("%s (%d entries)" % (path, n), m, st)
        for p in I.panics: check_panic(I, p, lambda z: "a result", env.rep, "%s (%d entries)" % (path, n))
    env.concrete = 2 * n + 6
    env.obligation("%s (%d entries)" % (path, n), go)
    env.concrete = None
GLE = "providers::mariadb::events::gtid_list_event::GtidListEvent"
def list_event(cu):
    n = Z.le(cu, 4); q = cu.q
    if Z.test(ge(n, K(1 << 28))): raise DontCare()
    def body(i, pos, acc):
        if not Z.test(lt(i, n)): raise Brk(acc, pos)
        c = Cur(q, pos); d = Z.le(c, 4); s = Z.le(c, 4); x = Z.le(c, 8)
        return add(i, ONE), c.pos, cat(acc, els([Z.struct(AG, domain_id=d, server_id=s, sequence=x)]))
    acc, pos = Z.loop(body, ZERO, cu.pos, Seq(()))
    return Z.struct(GLE, gtid_list=Z.struct(GL, gtids=acc))
def ob_list_event(env): env.decode(GLE + "::parse", list_event)
