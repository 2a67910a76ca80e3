"""One aspect of every analysis: panics, sizes of allocations, progress of repetitions."""
from checks.common import *
import spec as SP, terms as T
from env import Done
from checks import session as SS, events as EV, rows as ROWS, tables as TB, cells as CE, decimals as DE, metadata as MD, commits as CM, gtids as GT, texts as TX, stream as ST
import importlib
class Finding(SP.Mismatch): aspect = True
class WeakFinding(SP.LoopMismatch): aspect = True
def finding(weak, text): return (WeakFinding if weak else Finding)(text)
# ---- panics
def panics(env, path, I, outs, av):
    env.rep.paths += len(outs); env.rep.cases += 1
    for p in I.panics:
        notes = [n for n in p.st.notes if n[0] == "loop"]
        weak = bool(notes) or any(SP.mentions(c) for c in p.lits) or "lv(" in p.msg or "kap(" in p.msg
        def one(z):
            raise finding(weak, "panics: %s %s in %s" % (p.kind, p.msg[:160], p.site))
        try: SP.for_all(I, p.st, notes, one, 3000)
        except SP.Mismatch as m: env.rep.bad(env.label or path, m, p.st)
    if env.abort: raise Done()
# ---- sizes of allocations
SMALL = 1 << 16; HUGE = 1 << 24
def lens(ctx, n):
    r = set()
    def go(x):
        if isinstance(x, T.Lin):
            for a, k in x.t:
                if a.kind in ("len", "lenof"): r.add(a)
    for c in ctx.lits:
        if isinstance(c, tuple) and c[0] in ("ge", "eq", "ne"): go(c[1])
    go(n)
    return sorted(r)
def allocs(env, path, I, outs, av):
    env.rep.paths += len(outs)
    for site, kind, n, ctx, sp in I.allocs:
        env.rep.cases += 1
        c = ctx; m = ctx.norm(n)
        for a in lens(ctx, m): c = c and c.assume(ge(K(SMALL), A(a)))
        if c is None: continue
        c = c.assume(ge(m, K(HUGE)))
        if c is None: continue
        weak = SP.mentions(ge(m)) or any(SP.mentions(x) for x in c.lits)
        env.rep.bad(env.label or path, finding(weak, "%s in %s (%s) may reserve %s elements, however few bytes there are" % (kind, site, sp, show(m)[:120])), None)
    for L in I.loops:
        # collections that grow with every repetition
        env.rep.cases += 1
        for lits, values, log, s in L.backs:
            if any(e[0] in ("read", "recv") for e in log): continue
            if not any(l.kind == "seq" and l.mode == "acc" and not (T.same(l.step, ZERO) if hasattr(T, "same") else l.step == ZERO) for l, v in values): continue
            c = s.ctx
            for a in lens(c, A(L.kap)): c = c and c.assume(ge(K(SMALL), A(a)))
            c = c and c.assume(ge(A(L.kap), K(HUGE)))
            if c is None: continue
            # without a bound on the repetitions: each of them must consume input
            still = all(l.kind != "int" or l.mode == "rec" and c.assume(eq(v, I.lp.read(L.head, l))) is not None or l.mode == "affine" for l, v in values)
            env.rep.bad(env.label or path, finding(False, "the loop in %s fills a collection that may grow without bound, however few bytes there are%s" % (L.site, " STILL" if still else "")), None)
            break
    if env.abort: raise Done()
# ---- progress of repetitions
def loops(env, path, I, outs, av):
    env.rep.paths += len(outs)
    for L in I.loops:
        env.rep.cases += 1
        if L.term: env.notes.append("%s: loop in %s: %s" % (path, L.site, L.term)); continue
        bad = None
        for lits, values, log, s in L.backs:
            if any(e[0] in ("read", "recv") for e in log): continue
            c = s.ctx; why = None
            for l, v in values:
                if l.kind == "int": c = c and c.assume(eq(v, I.lp.read(L.head, l)))
                elif l.kind == "seq":
                    if l.mode != "acc": why = "list"
                else: why = "state"
            if c is not None and why is None: bad = s; break
        if bad is not None: env.rep.bad(env.label or path, finding(False, "the loop in %s may repeat without consuming input or advancing" % L.site), bad)
        else: env.failed.append((env.label or path, "no ranking argument for the loop in %s" % L.site))
    if env.abort: raise Done()
# ---- contracts of decoders, for analyses of their callers
def stub_row(env):
    """a row starts with one bit for each present column"""
    tm = tyof(env, ROWS.TM); vs = [f[0] for f in env.P.variants(tm)[0]["fields"]]
    def stub(I, st, c, args, retty, argtys):
        v, q, p = ROWS.cur_of(I, st, args[0]); t = deref(args[1]); present = I.nat.seq(st, args[2]); n = st.ctx.norm(args[3])
        types = I.nat.seq(st, I.P.field(t, vs.index("column_types"), 0))
        for bad, why in ((st.assume(ne(slen(present), slen(types))), "a row is decoded with a presence bitmap that does not have one bit per column"),
                         (st.assume(ne(n, ROWS.count_term(st.ctx, present))), "a row is decoded with a wrong number of present columns")):
            if bad is not None: I.panic(bad, "index", why)
        key = ("row",) + ROWS.norm(st.ctx, q, p, n)
        k = A(atom("app", ("consumed", key), 0, ROWS.HI63)); t = I.P.types[retty]["args"][0]; out = []
        ok = st.assume(B("decodes", *key))
        if ok is not None: ok = ok.assume(ge(k, ROWS.nbytes(n)))
        if ok is not None and ok.ctx.entails(ge(n, ONE)): ok = ok.assume(ge(k, ONE))
        if ok is not None: ok = ok.assume(ge(slen(q), add(p, k)))
        if ok is not None:
            ok = ok.fork(); I.store(ok, args[0].cell, args[0].proj, Op("Cursor", v.a[0], add(p, k)))
            out.append((I.nat.mkres(retty, True, I.P.mksym(t, key)), ok))
        bad = st.assume(neg(B("decodes", *key)))
        if bad is not None:
            bad = bad.fork(); I.store(bad, args[0].cell, args[0].proj, Op("Cursor", v.a[0], A(atom("sym", (("errpos",) + key,), 0, ROWS.HI63))))
            out.append((I.nat.mkres(retty, False, Op("anyerr", "row", key)), bad))
        return out
    return stub
def generic(env, path, stubs=None, args=None, setup=None, start0=False, name=None):
    """arbitrary arguments"""
    def go():
        env.start0 = start0
        env.analyse(path, args, stubs, public=False, setup=setup)
    env.label = name or path
    env.obligation(env.label, go)
def ob_row_masks(env):
    """rows of few columns of any type, for every choice of present columns"""
    tm = tyof(env, ROWS.TM); vs = [f[0] for f in env.P.variants(tm)[0]["fields"]]
    st = ROWS.install(env, ROWS.BM, ROWS.CELL, ROWS.ACTUAL)
    env.concrete = 10; env.concrete_states = 400
    for k in range(0, 5):
        for m in range(1 << k):
            present = [m >> i & 1 for i in range(k)]
            def table(I, s):
                v = I.P.mksym(tm, ("table_map",)); f = [I.P.field(v, i, 0) for i in range(len(vs))]
                f[vs.index("column_types")] = els([A(atom("sym", (("type", i),), 0, 255)) if k < 2 else K((254, 3, 15, 3)[i]) for i in range(k)])
                f[vs.index("column_metadata")] = els([A(atom("sym", (("metadata", i),), 0, 65535)) for i in range(k)])
                return RefV(Adt(tm, 0, f))
            generic(env, ROWS.ROW, st, {1: table, 2: RefV(els([mkbo(bool(b)) for b in present])), 3: K(sum(present))}, name="%s (columns present: %s)" % (ROWS.ROW, present))
    env.concrete = None; env.concrete_states = 16
def hostile_decimals():
    edge = (1, 8, 9, 10, 17, 18, 19, 27, 65, 66, 81, 127, 128, 251, 252, 253, 254, 255)
    return [(p, s) for p in edge for s in (0,) + edge if s <= p] + [(0, 0), (0, 1), (0, 255), (5, 6), (1, 255), (254, 255)]
def ob_decimals(env, ps):
    for p, s in ps: generic(env, CE.DECI, None, {1: K(s << 8 | p)}, name="%s (DECIMAL(%d,%d))" % (CE.DECI, p, s))
def meta_stub(I, st, c, args, retty, argtys):
    q = I.nat.seq(st, args[1]); v, s, p = ROWS.cur_of(I, st, args[0]); out = []
    key = ("meta",) + ROWS.norm(st.ctx, s, p, q)
    good = st.fork(); I.store(good, args[0].cell, args[0].proj, Op("Cursor", v.a[0], A(atom("sym", (("metapos",) + key,), 0, ROWS.HI63))))
    u16 = I.P.byname["u16"]
    return [(I.nat.mkres(retty, True, Seq((("in", key, ZERO, st.ctx.norm(slen(q)), u16),))), good), (I.nat.mkres(retty, False, Op("anyerr", "meta", key)), st.fork())]
def tables_consistent(env):
    """a table map has metadata for every column"""
    def z_len(z, v, st):
        ok, val = outcome(z, v)
        if not ok: return
        a, b = slen(z.field(val, "column_types")), slen(z.field(val, "column_metadata"))
        if not eqv(z, a, b): raise finding(False, "a table map is accepted whose columns and column metadata differ in number: rows of it index out of range")
    stubs = ROWS.install(env, ROWS.BM)
    if TB.MET in env.P.bypath: stubs[TB.MET] = meta_stub
    if TB.TMD + "::parse" in env.P.bypath: stubs[TB.TMD + "::parse"] = ROWS.consuming("tablemeta", None)
    a = env.rep.aspect; ab = env.abort
    def quiet(env_, path, I, outs, av):
        for v, st in outs:
            env.rep.paths += 1
            def run(z): env.rep.cases += 1; return z_len(z, v, st)
            try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], run)
            except SP.Mismatch as m: env.rep.bad(env.label, m, st)
    env.rep.aspect = quiet
    try: generic(env, ROWS.TM + "::parse", stubs, start0=True, name="columns and metadata of a table map")
    finally: env.rep.aspect = a
    if TB.MET in env.P.bypath:
        def mlen(env_, path, I, outs, av):
            n = slen(I.nat.seq(State(), av[1]))
            for v, st in outs:
                env.rep.paths += 1
                def run(z):
                    env.rep.cases += 1; ok, val = outcome(z, v)
                    if ok and not eqv(z, slen(z.nat.seq(z.st, val)), n): raise finding(False, "metadata is decoded for another number of columns")
                try: SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], run)
                except SP.Mismatch as m: env.rep.bad(env.label, m, st)
        env.rep.aspect = mlen
        try: generic(env, TB.MET, name="metadata for every column")
        finally: env.rep.aspect = a
from interp import State
ROWP = "responses::result_set_row_packet::ResultSetRowPacket::parse"
def module(env, pid): importlib.import_module("checks." + pid).run(env)
def decoders(env):
    """functions that take untrusted bytes or text"""
    out = []
    for p in sorted(env.P.bypath):
        f = env.P.bypath[p][0]
        if not f["local"] or f["closure"] or not (f.get("exported") or f.get("pub")): continue
        for i in range(f["argc"]):
            s = env.P.types[f["locals"][i + 1][0]].get("s", "")
            if "Cursor<" in s or s in ("&[u8]", "&str", "std::string::String", "&std::string::String", "alloc::string::String"): out.append(p); break
    return out
def jobs(env, which):
    S = SS; J = {}
    def rows_event(kind, v):
        st = ROWS.install(env, ROWS.BM, ROWS.COUNT)
        if ROWS.ROW in env.P.bypath: st[ROWS.ROW] = stub_row(env)
        env.label = None
        ROWS.ob_rows_event(env, kind, v, stubs=st)
    for n in ("connect", "adjust", "heartbeat", "checksum", "mariadb", "mysql", "replicate", "handshake", "switch", "gtid_dump_bytes"):
        def one(n=n):
            env.focus = set()
            f = getattr(S, "ob_" + n)
            f(env, True) if n == "connect" else f(env)
        J["session " + n] = one
    J["packets"] = lambda: module(env, "c05")
    J["dispatch"] = lambda: EV.dispatch(env, "kind")
    for k in ROWS.KIND:
        for v in (1, 2): J["rows %s %d" % (k, v)] = lambda k=k, v=v: rows_event(k, v)
    def heads(kind, v):
        # the bitmaps of a rows event with their reader
        st = dict(LEN)
        for k, f in ((ROWS.COUNT, ROWS.stub_count), (ROWS.ROW, stub_row(env))):
            if k in env.P.bypath: st[k] = f
        ROWS.ob_rows_event(env, kind, v, stubs=st)
    if which is allocs:
        # how many bits there are is checked by whoever reads them
        for k in ROWS.KIND:
            for v in (1, 2): J["bitmaps of rows %s %d" % (k, v)] = lambda k=k, v=v: heads(k, v)
        stt = dict(LEN)
        if TB.MET in env.P.bypath: stt[TB.MET] = meta_stub
        if TB.TMD + "::parse" in env.P.bypath: stt[TB.TMD + "::parse"] = ROWS.consuming("tablemeta", None)
        J["bitmaps of table maps"] = lambda: generic(env, ROWS.TM + "::parse", stt, start0=True)
    J["events"] = lambda: module(env, "c11")
    J["format description"] = lambda: module(env, "c12")
    J["table map"] = lambda: (TB.ob_table_map(env), TB.ob_meta(env), TB.ob_meta_long(env))
    if which is not allocs: J["bitmaps"] = lambda: ROWS.ob_bitmap(env)
    J["counts"] = lambda: ROWS.ob_count(env)
    J["row"] = lambda: (ob_row_masks(env), ROWS.ob_row_long(env))
    J["actual"] = lambda: generic(env, ROWS.ACTUAL)
    J["cells"] = lambda: generic(env, ROWS.CELL, {**LEN, **({CE.DECI: ROWS.consuming("decimal", None)} if CE.DECI in env.P.bypath else {})})
    J["cells by type"] = lambda: CE.ob_cells(env)
    ps = hostile_decimals()
    for i in range(8): J["decimals %d" % i] = lambda i=i: ob_decimals(env, ps[i::8])
    def many(n, f):
        # the jobs of a module that would run in parallel by itself
        def one(i):
            keep = env.parallel; env.parallel = lambda items, fn, workers=8: [fn(x) for x in list(items)[i::8]]
            try: f(env)
            finally: env.parallel = keep
        for i in range(8): J["%s %d" % (n, i)] = lambda i=i: one(i)
    many("metadata", MD.ob_metadata)
    # entries that end after the metadata does
    for c in (1, 2, 4, 8, 12, 13): J["metadata cut short %d" % c] = lambda c=c: MD.one_entry(env, c, [3, 15], ", cut short", True)
    def hist(env):
        env.abort = False
        try: CM.ob_history(env, "gtid")
        finally: env.abort = True
    many("history", hist)
    many("texts", lambda env: env.parallel([f for f in TX.jobs(env)], lambda f: f()))
    J["uuid sets"] = lambda: GT.ob_set_add(env)
    for n in range(8): J["uuid set %d" % n] = lambda n=n: GT.ob_uuid_add(env, n)
    for n in range(7): J["gtid list %d" % n] = lambda n=n: GT.ob_list_add(env, n)
    J["gtid list event"] = lambda: GT.ob_list_event(env)
    J["file open"] = lambda: ST.ob_open(env)
    def file(path, wrap):
        env.abort = False
        try: ST.ob_file(env, path, wrap)
        finally: env.abort = True
    J["file event"] = lambda: file("binlog_reader::BinlogReader::read_event", False)
    J["file events"] = lambda: file(ST.FILE, True)
    J["live events"] = lambda: ST.ob_live(env)
    for p in decoders(env):
        f = env.P.bypath[p][0]
        if not f.get("exported") or any(w in p for w in ("binlog_", "commands::", "rows_event::", "table_map", "TableMetadata", "parse_event", "extensions", "Iterator")): continue
        J["any input to " + p] = lambda p=p: generic(env, p)
    if SS.ERRP + "::parse" in env.P.bypath: J["error packet"] = lambda: generic(env, SS.ERRP + "::parse")
    for p in ("extensions::read_len_enc_num", "extensions::read_len_enc_str", "extensions::read_null_term_string"):
        if p in env.P.bypath: J["any input to " + p] = lambda p=p: generic(env, p)
    if ROWP in env.P.bypath: J["row packet"] = lambda: generic(env, ROWP, LEN)
    return J
def decide(env, aspect):
    env.rep.aspect = aspect; env.abort = True; env.unrolls = (2, 1); env.unroll_secs = 40; env.secs = 150
    J = jobs(env, aspect)
    def one(k):
        env.label = None; env.start0 = False; env.focus = set(); env.concrete = None; env.concrete_states = 16; env.abort = True
        if env.rep.viol: env.unrolls = ()
        try: J[k]()
        except Done: pass
        except (Unsupported, Gone, SP.Mismatch) as e: env.failed.append((k, "%s: %s" % (type(e).__name__, str(e)[:200])))
        except Exception as e:
            env.failed.append((k, "%s: %s" % (type(e).__name__, str(e)[:200])))
    env.parallel(list(J), one)
    # the same finding may come from several analyses
    seen = set(); v = []
    for x in env.rep.viol:
        k = (x[0].split(" (")[0], x[1])
        if k not in seen: seen.add(k); v.append(x)
    env.rep.viol = v
