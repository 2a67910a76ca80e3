"""Text and wire forms of GTID positions."""
from checks.gtids import *
import nat_misc, nat_text
from spec import DontCare
M32 = (1 << 32) - 1
def num(nm, hi): return A(atom("sym", (nm,), 0, hi))
def ch(nm): return A(atom("sym", (nm,), 33, 126))
def dec(v): return nat_misc.dec_seq(v)
def txt(*ps):
    """bytes, ASCII text, numbers and sequences one after the other"""
    return cat(*[p if isinstance(p, Seq) else const_seq(p.encode()) if isinstance(p, str) else dec(p) if isinstance(p, Lin) else None for p in ps])
def data_of(i): return bytes((i * 37 + j * 11 + 0xC3 * (j % 3)) & 255 for j in range(16))
def udata(env, nm): return env.P.mksym(next(f[1] for f in env.P.variants(tyof(env, UU))[0]["fields"] if f[0] == "data"), (nm,))
def hexed(z, data, n=16, upper=False, dash=(4, 6, 8, 10)):
    r = []
    for i in range(n):
        if i in dash: r.append(K(45))
        r += z.nat.nibbles(index(data, K(i), z.ctx), upper)
    return els(r)
def active(I, st):
    z = SP.S(I, st, (), []); SP.ACTIVE[0] = z
    return z
def case(env, path, name, make, run, args=1, concrete=24, setup=None, public=True):
    """one text: make(z) -> (text, facts); run(z, ok, payload, facts) judges the outcome"""
    name = "%s (%s)" % (path, name)
    def go():
        box = []
        def mk(I, st):
            q, f = make(active(I, st)); box.append(f)
            own = env.P.types[env.fn(path)["locals"][1][0]]["k"] != "ref"
            return q if own else RefV(q)
        I, outs, av = env.analyse(path, {0: mk}, setup=setup, public=public)
        for val, st in outs:
            env.rep.paths += 1
            def one(z):
                env.rep.cases += 1
                ok, r = outcome(z, val)
                run(z, ok, r, box[0])
            try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], one)
            except Mismatch as m: env.rep.bad(name, m, st)
        for p in I.panics: check_panic(I, p, lambda z: "a result", env.rep, name)
    env.concrete = concrete; env.concrete_states = 400
    env.obligation(name, go)
    env.concrete = None
# ---- printed forms ----
def printed(env, ty, name, make, want, setup=None):
    """what Display writes for a value; want(z, value facts) -> admitted texts"""
    path = "<%s as core::fmt::Display>::fmt" % ty; name = "%s (%s)" % (path, name)
    def go():
        box = []
        def mk(I, st):
            v, f = make(active(I, st)); box.append(f); return RefV(v)
        I, outs, av = env.analyse(path, {0: mk, 1: lambda I, st: MutRef(I.newcell(st, Op("Formatter", Seq(()), ())))}, setup=setup)
        for val, st in outs:
            env.rep.paths += 1
            def one(z):
                env.rep.cases += 1
                got = I.read(st, av[1].cell, av[1].proj).a[0]
                ws = want(z, box[0])
                if not any(eqv(z, got, w) for w in ws): raise Mismatch("wrong text", got, ws[0])
            try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], one)
            except Mismatch as m: env.rep.bad(name, m, st)
        for p in I.panics: check_panic(I, p, lambda z: "a text", env.rep, name)
    env.concrete = 16
    env.obligation(name, go)
    env.concrete = None
def itext(z, s, e): return dec(s) if z.test(eq(s, e)) else txt(s, "-", e)
def joined(sep, xs):
    o = []
    for i, x in enumerate(xs): o += [sep, x] if i else [x]
    return txt(*o) if o else Seq(())
def ivs(n, pre=""): return [(num("%ss%d" % (pre, i), M64), num("%se%d" % (pre, i), M64)) for i in range(n)]
def ordered(xs):
    def f(I, st, av):
        for s, e in xs:
            st = st and st.assume(le(s, e))
        return st
    return f
def ob_print(env):
    P = env.P
    xs = ivs(1)
    printed(env, IV, "any interval", lambda z: (z.struct(IV, start=xs[0][0], end=xs[0][1]), None), lambda z, f: [itext(z, *xs[0])], ordered(xs))
    d = udata(env, "server"); t = num("t", M64)
    printed(env, UU, "any server", lambda z: (uuid(d), None), lambda z, f: [uuid_text(d)])
    printed(env, MG, "any GTID", lambda z: (z.struct(MG, source_id=uuid(d), transaction_id=t), None), lambda z, f: [txt(uuid_text(d), ":", t)])
    a, b, c = num("domain", M32), num("server", M32), num("sequence", M64)
    printed(env, AG, "any GTID", lambda z: (z.struct(AG, domain_id=a, server_id=b, sequence=c), None), lambda z, f: [txt(a, "-", b, "-", c)])
    for n in (1, 2, 3):
        xs = ivs(n)
        printed(env, US, "%d intervals" % n, lambda z: (z.struct(US, source_id=uuid(d), intervals=els([interval(P, s, e) for s, e in xs])), None),
                lambda z, f: [txt(uuid_text(d), ":", joined(":", [itext(z, s, e) for s, e in xs]))], ordered(xs))
    import itertools
    for n in (0, 1, 2, 3):
        xs = ivs(n)
        def mk(z):
            us = [uuid(const_seq(data_of(i))) for i in range(n)]
            return z.struct(GS, uuid_sets=Op("map", None, tuple((z.field(u, "uuid"), z.struct(US, source_id=u, intervals=els([interval(P, *xs[i])]))) for i, u in enumerate(us)))), us
        def want(z, us):
            ps = [txt(z.field(u, "uuid"), ":", itext(z, *xs[i])) for i, u in enumerate(us)]
            return [joined(",", p) for p in itertools.permutations(ps)]
        printed(env, GS, "%d servers" % n, mk, want, ordered(xs))
    for n in (0, 1, 2, 3):
        ys = [(num("d%d" % i, M32), num("s%d" % i, M32), num("q%d" % i, M64)) for i in range(n)]
        printed(env, GL, "%d entries" % n, lambda z: (z.struct(GL, gtids=els([z.struct(AG, domain_id=x, server_id=y, sequence=w) for x, y, w in ys])), None),
                lambda z, f: [joined(",", [txt(x, "-", y, "-", w) for x, y, w in ys])])
# ---- server ids ----
def ob_uuid(env):
    path = UU + "::new"; d = udata(env, "server")
    def go():
        I, outs, av = env.analyse(path, {0: d})
        for val, st in outs:
            env.rep.paths += 1; env.rep.cases += 1
            z = active(I, st)
            if not eqv(z, val, uuid(d)): env.rep.bad(path, Mismatch("wrong server id", val, uuid(d)), st)
    env.concrete = 40
    env.obligation(path, go)
    env.concrete = None
    path = UU + "::parse"
    def good(z, ok, r, f):
        if not ok: raise Mismatch("a well-formed server id is refused", r)
        if not eqv(z, r, uuid(f)): raise Mismatch("another server id is read", r, uuid(f))
    def bad(z, ok, r, f):
        if ok: raise Mismatch("a malformed server id is accepted", r)
    for up in (False, True):
        case(env, path, "%s hexadecimal digits" % ("upper-case" if up else "lower-case"), lambda z: (hexed(z, d, upper=up), d), good)
    for n in (0, 8, 15, 17, 32): case(env, path, "%d bytes" % n, lambda z: (hexed(z, d_of(env, 32), n), None), bad)
    for k in (0, 7, 8, 9, 18, 20, 35):
        def mk(z):
            x = ch("c"); return update_at(hexed(z, d), k, x), x
        def run(z, ok, r, x):
            if k in (8, 13, 18, 23):
                if z.test(eq(x, K(45))): return good(z, ok, r, d)
                return bad(z, ok, r, None)
            hx = z.test(and_(ge(x, K(48)), le(x, K(57)))) or z.test(and_(ge(x, K(97)), le(x, K(102)))) or z.test(and_(ge(x, K(65)), le(x, K(70))))
            if not hx: return bad(z, ok, r, None)
            if not ok: raise Mismatch("a well-formed server id is refused", r)
        case(env, path, "any character at position %d" % k, mk, run)
    case(env, path, "one digit short", lambda z: (slice_(hexed(z, d), ZERO, K(35), z.ctx), None), bad)
    case(env, path, "one digit more", lambda z: (cat(hexed(z, d), const_seq(b"0")), None), bad)
def d_of(env, n): return Seq((("in", ("longer",), ZERO, K(n), "u8"),))
def update_at(q, k, x):
    s = list(q.s)
    return Seq(tuple(s[:k] + [("el", x)] + s[k + 1:]))
# ---- sets ----
def union(z, xs):
    """canonical form of a union of intervals"""
    out = []
    for s, e in xs:
        k = 0
        while k < len(out) and not z.test(le(s, out[k][0])): k += 1
        out.insert(k, (s, e))
    r = []
    for s, e in out:
        if r and z.test(le(s, add(r[-1][1], ONE))):
            if z.test(gt(e, r[-1][1])): r[-1] = (r[-1][0], e)
        else: r.append((s, e))
    return r
def ob_canonical(env, n):
    """a set built from n intervals in any order"""
    P = env.P; path = US + "::new"; xs = ivs(n); d = udata(env, "server"); name = "%s (%d intervals)" % (path, n)
    def go():
        I, outs, av = env.analyse(path, {0: lambda I, st: active(I, st) and uuid(d), 1: els([interval(P, s, e) for s, e in xs])}, setup=ordered(xs))
        for val, st in outs:
            env.rep.paths += 1
            def one(z):
                env.rep.cases += 1
                w = z.struct(US, source_id=uuid(d), intervals=els([interval(P, s, e) for s, e in union(z, xs)]))
                if not eqv(z, val, w): raise Mismatch("wrong set", val, w)
            try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], one)
            except Mismatch as m: env.rep.bad(name, m, st)
        for p in I.panics: check_panic(I, p, lambda z: "a result", env.rep, name)
    env.concrete = 3 * n + 8
    env.obligation(name, go)
    env.concrete = None
class Bad(Exception): pass
def judge_set(env, want):
    """want(z, facts) -> [(uuid value, [(start, end)])] in any order, or raises Bad"""
    P = env.P
    def run(z, ok, r, f):
        try: w = want(z, f)
        except DontCare: return
        except Bad:
            if ok: raise Mismatch("a malformed GTID set is accepted", r)
            return
        if not ok: raise Mismatch("a well-formed GTID set is refused", r)
        m = z.field(r, "uuid_sets")
        if not (isinstance(m, Op) and m.n == "map" and m.a[0] is None): raise Mismatch("wrong set", m)
        es = [(deref(k), v) for k, v in m.a[1] if not (isinstance(v, Op) and v.n == "absent")]
        if len(es) != len(w): raise Mismatch("wrong number of servers", r)
        for u, xs in w:
            x = z.struct(US, source_id=u, intervals=els([interval(P, s, e) for s, e in union(z, xs)]))
            k = next((i for i, e in enumerate(es) if eqv(z, e[0], z.field(u, "uuid"), True) or eqv(z, e[0], z.field(u, "uuid"))), None)
            if k is None: raise Mismatch("a server is missing", r, u)
            if not eqv(z, es[k][1], x): raise Mismatch("wrong intervals of a server", es[k][1], x)
    return run
BIG = (1 << 66) - 1
def within(z, *vs):
    for v in vs:
        if not z.test(le(v, K(M64))): raise Bad()
def range_of(z, s, e):
    within(z, s, e)
    if not z.test(le(s, e)): raise Bad()
    return (s, e)
def set_jobs(env):
    path = GS + "::parse"; d = udata(env, "server"); J = []
    def job(name, make, want): J.append(lambda: case(env, path, name, make, judge_set(env, want), concrete=64))
    def n_(i): return num("n%d" % i, BIG)
    small = [num("m%d" % i, M32) for i in range(3)]
    cu = [const_seq(data_of(i)) for i in range(3)]
    def bad(z, f): raise Bad()
    job("empty text", lambda z: (Seq(()), None), lambda z, f: [])
    for up in (False, True):
        job("one id, %s-case server" % ("upper" if up else "lower"), lambda z, up=up: (cat(hexed(z, d, upper=up), txt(":", n_(0))), None), lambda z, f: [(uuid(d), [range_of(z, n_(0), n_(0))])])
    job("one interval", lambda z: (cat(hexed(z, d), txt(":", n_(0), "-", n_(1))), None), lambda z, f: [(uuid(d), [range_of(z, n_(0), n_(1))])])
    job("two ids", lambda z: (cat(hexed(z, d), txt(":", n_(0), ":", n_(1))), None), lambda z, f: [(uuid(d), [range_of(z, n_(0), n_(0)), range_of(z, n_(1), n_(1))])])
    job("an interval and an id", lambda z: (cat(hexed(z, d), txt(":", n_(0), "-", n_(1), ":", n_(2))), None), lambda z, f: [(uuid(d), [range_of(z, n_(0), n_(1)), range_of(z, n_(2), n_(2))])])
    job("two intervals", lambda z: (cat(hexed(z, d), txt(":", n_(0), "-", n_(1), ":", n_(2), "-", n_(3))), None), lambda z, f: [(uuid(d), [range_of(z, n_(0), n_(1)), range_of(z, n_(2), n_(3))])])
    job("three intervals", lambda z: (cat(hexed(z, cu[0]), txt(":", n_(0), "-", n_(1), ":", n_(2), "-", n_(3), ":", n_(4), "-", n_(5))), None), lambda z, f: [(uuid(cu[0]), [range_of(z, n_(0), n_(1)), range_of(z, n_(2), n_(3)), range_of(z, n_(4), n_(5))])])
    for sep in (",", ", ", ",\n", " , ", "\n,\n", ",\r\n"):
        job("two servers separated by %r" % sep, lambda z, sep=sep: (cat(hexed(z, cu[0]), txt(":", n_(0), "-", n_(1), sep), hexed(z, cu[1]), txt(":", n_(2))), None),
            lambda z, f: [(uuid(cu[0]), [range_of(z, n_(0), n_(1))]), (uuid(cu[1]), [range_of(z, n_(2), n_(2))])])
    job("three servers", lambda z: (cat(*[cat(hexed(z, cu[i]), txt(":", n_(i), "," if i < 2 else "")) for i in (0, 1, 2)]), None), lambda z, f: [(uuid(cu[i]), [range_of(z, n_(i), n_(i))]) for i in (0, 1, 2)])
    job("a server listed twice", lambda z: (cat(hexed(z, cu[0]), txt(":", n_(0), "-", n_(1), ","), hexed(z, cu[0]), txt(":", n_(2), "-", n_(3))), None),
        lambda z, f: [(uuid(cu[0]), [range_of(z, n_(0), n_(1)), range_of(z, n_(2), n_(3))])])
    job("a server listed again after another, in upper case", lambda z: (cat(hexed(z, cu[0]), txt(":", n_(0), ","), hexed(z, cu[1]), txt(":", n_(1), ","), hexed(z, cu[0], upper=True), txt(":", n_(2))), None),
        lambda z, f: [(uuid(cu[0]), [range_of(z, n_(0), n_(0)), range_of(z, n_(2), n_(2))]), (uuid(cu[1]), [range_of(z, n_(1), n_(1))])])
    for a, b in ((1, 2), (2, 1), (2, 2)):
        def mk(z, a=a, b=b): return cat(hexed(z, cu[0]), txt(*[x for i in range(a) for x in (":", n_(i))], ","), hexed(z, cu[0]), txt(*[x for i in range(b) for x in (":", n_(a + i))])), None
        job("a server listed with %d and then %d ids" % (a, b), mk, lambda z, f, a=a, b=b: [(uuid(cu[0]), [range_of(z, n_(i), n_(i)) for i in range(a + b)])])
    U = lambda z: hexed(z, cu[0])
    for name, mk in [("no interval", lambda z: (U(z))), ("no interval after the colon", lambda z: cat(U(z), txt(":"))), ("a third bound", lambda z: cat(U(z), txt(":", n_(0), "-", n_(1), "-", n_(2)))),
                     ("no start", lambda z: cat(U(z), txt(":-", n_(0)))), ("no end", lambda z: cat(U(z), txt(":", n_(0), "-"))), ("two colons", lambda z: cat(U(z), txt("::", n_(0)))),
                     ("a colon at the end", lambda z: cat(U(z), txt(":", n_(0), ":"))), ("a colon inside", lambda z: cat(U(z), txt(":", n_(0), "::", n_(1)))), ("letters after a number", lambda z: cat(U(z), txt(":", n_(0), "x"))), ("letters before a number", lambda z: cat(U(z), txt(":x", n_(0)))),
                     ("a comma at the end", lambda z: cat(U(z), txt(":", n_(0), ","))), ("a comma at the start", lambda z: cat(txt(","), U(z), txt(":", n_(0)))), ("two commas", lambda z: cat(U(z), txt(":", n_(0), ",,"), hexed(z, cu[1]), txt(":", n_(1)))),
                     ("only a number", lambda z: txt(n_(0))), ("a second entry without server", lambda z: cat(U(z), txt(":", n_(0), ",", small[0], "-", small[1]))), ("an uncommon separator", lambda z: cat(U(z), txt(":", n_(0), ";"), hexed(z, cu[1]), txt(":", n_(1)))),
                     ("a short server id", lambda z: cat(slice_(U(z), ZERO, K(35), z.ctx), txt(":", n_(0)))), ("a long server id", lambda z: cat(U(z), txt("a:", n_(0)))), ("a server id that is not hexadecimal", lambda z: cat(update_at(U(z), 3, K(103)), txt(":", n_(0)))),
                     ("a second number after a space", lambda z: cat(U(z), txt(":", n_(0), " ", n_(1)))), ("no colon after the server id", lambda z: cat(U(z), txt("-", n_(0)))), ("text", lambda z: txt("all of them")), ("a dot", lambda z: cat(U(z), txt(":", n_(0), ".5")))]:
        job(name, lambda z, mk=mk: (mk(z), None), bad)
    # any three characters as an interval
    def anych(z):
        cs = [ch("c%d" % i) for i in range(3)]
        return cat(U(z), txt(":"), els(cs)), cs
    def three(z, cs):
        for c in cs:
            for x in b",:+": 
                if z.test(eq(c, K(x))): raise DontCare()
        dig = lambda c: z.test(and_(ge(c, K(48)), le(c, K(57))))
        def number(l):
            if not l or not all(dig(c) for c in l): raise Bad()
            v = ZERO
            for c in l: v = add(scale(v, 10), sub(c, K(48)))
            return v
        ps = [[]]
        for c in cs:
            if z.test(eq(c, K(45))): ps.append([])
            else: ps[-1].append(c)
        if len(ps) == 1:
            v = number(ps[0]); return [(uuid(cu[0]), [(v, v)])]
        if len(ps) != 2: raise Bad()
        return [(uuid(cu[0]), [range_of(z, number(ps[0]), number(ps[1]))])]
    job("any three characters as an interval", anych, three)
    return J
# ---- lists ----
def list_jobs(env):
    path = GL + "::parse"; J = []
    def g(i): return (num("d%d" % i, (1 << 34) - 1), num("s%d" % i, (1 << 34) - 1), num("q%d" % i, BIG))
    def entry(x): return txt(x[0], "-", x[1], "-", x[2])
    def judge(want):
        def run(z, ok, r, f):
            try: w = want(z, f)
            except DontCare: return
            except Bad:
                if ok: raise Mismatch("a malformed GTID list is accepted", r)
                return
            if not ok: raise Mismatch("a well-formed GTID list is refused", r)
            x = z.struct(GL, gtids=els([z.struct(AG, domain_id=a, server_id=b, sequence=c) for a, b, c in w]))
            if not eqv(z, r, x): raise Mismatch("another list is read", r, x)
        return run
    def want(n):
        def f(z, _):
            xs = [g(i) for i in range(n)]
            for a, b, c in xs:
                if not (z.test(le(a, K(M32))) and z.test(le(b, K(M32)))): raise Bad()
                within(z, c)
            for i in range(n):
                for j in range(i):
                    if z.test(eq(xs[i][0], xs[j][0])): raise Bad()
            return xs
        return f
    def bad(z, f): raise Bad()
    def job(name, make, w): J.append(lambda: case(env, path, name, make, judge(w), concrete=64))
    job("empty text", lambda z: (Seq(()), None), lambda z, f: [])
    for n in (1, 2, 3, 4):
        for sep in (",", ", ", ",\n", " ,\n") if n == 2 else (",",):
            job("%d entries separated by %r" % (n, sep), lambda z, n=n, sep=sep: (joined(sep, [entry(g(i)) for i in range(n)]), None), want(n))
    a, b, c = g(0)
    for name, t in [("two components", txt(a, "-", b)), ("four components", txt(a, "-", b, "-", c, "-", num("x", 99))), ("one component", txt(a)), ("no domain", txt("-", b, "-", c)), ("no server", txt(a, "--", c)), ("no sequence", txt(a, "-", b, "-")),
                    ("a letter", txt(a, "-", b, "-", c, "x")), ("a letter before", txt("x", a, "-", b, "-", c)), ("a comma at the end", txt(entry(g(0)), ",")), ("a comma at the start", txt(",", entry(g(0)))), ("two commas", txt(entry(g(0)), ",,", entry(g(1)))), ("another separator", txt(entry(g(0)), ";", entry(g(1)))),
                    ("text", txt("none-of-this")), ("a colon", txt(a, ":", b, ":", c)), ("a dot", txt(a, "-", b, "-", c, ".0")), ("a malformed second entry", txt(entry(g(0)), ",", num("x", 99), "-", num("y", 99)))]:
        job(name, lambda z, t=t: (t, None), bad)
    return J
# ---- previous GTIDs ----
PG = "providers::mysql::events::prev_gtids_event::PreviousGtidsEvent"
def prev(env, counts):
    """the payload listing len(counts) servers with the given numbers of intervals, followed by anything"""
    path = PG + "::parse"; P = env.P
    def setup(I, st, av):
        v, q, p = cur_of(I, st, av[0])
        n = 8 + sum(24 + 16 * c for c in counts)
        parts = [const_seq(len(counts).to_bytes(8, "little"))]; pos = 8
        for i, c in enumerate(counts):
            if len(counts) == 1: parts.append(els([index(q, K(pos + j), st.ctx, "u8") for j in range(16)]))
            else: parts.append(const_seq(data_of(i)))
            pos += 16; parts.append(const_seq(c.to_bytes(8, "little"))); pos += 8
            parts.append(els([index(q, K(pos + j), st.ctx, "u8") for j in range(16 * c)])); pos += 16 * c
        st = st.assume(ge(slen(q), K(n))).fork()
        I.store(st, av[0].cell, av[0].proj, Op("Cursor", RefV(cat(*parts)), ZERO))
        return st
    def sp(cu):
        Z.le(cu, 8); es = []
        for c in counts:
            d = Z.take(cu, K(16)); Z.le(cu, 8); xs = []
            for _ in range(c):
                s, e = Z.le(cu, 8), Z.le(cu, 8)
                if not Z.test(gt(e, s)): raise SErr("interval")
                xs.append((s, sub(e, ONE)))
            es.append((d, xs))
        es = [(uuid(d), xs) for d, xs in es]
        return Z.struct(PG, gtid_set=Z.struct(GS, uuid_sets=Op("map", None, tuple((Z.field(u, "uuid"), Z.struct(US, source_id=u, intervals=els([interval(P, s, e) for s, e in xs]))) for u, xs in es))))
    env.start0 = False; env.concrete = 40
    env.decode(path, sp, name="%s (%s intervals)" % (path, list(counts)), setup=setup)
    env.concrete = None
def jobs(env):
    from checks.session import ob_gtid_dump_bytes
    J = set_jobs(env) + list_jobs(env) + [lambda: ob_print(env), lambda: ob_uuid(env), lambda: ob_gtid_dump_bytes(env)]
    J += [lambda n=n: ob_canonical(env, n) for n in (4, 3, 2, 1, 0)]
    J += [lambda c=c: prev(env, c) for c in ((), (0,), (1,), (2,), (3,), (5,), (1, 1), (2, 0), (0, 3), (1, 2, 1))]
    return J
