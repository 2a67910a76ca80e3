"""Committing events: the saved position over every history of committed events."""
from checks.common import *
import spec as SP, terms as T, seqs
from loops import *
CL_ = "binlog_client::BinlogClient"; COMMIT = CL_ + "::commit"; NEW = CL_ + "::new"; REPL_ = CL_ + "::replicate"
BE = "events::binlog_event::BinlogEvent"; HD = "events::event_header::EventHeader"; BO = "binlog_options::BinlogOptions"
ADDL = "providers::mariadb::gtid::gtid_list::GtidList::add_gtid"; ADDS = "providers::mysql::gtid::gtid_set::GtidSet::add_gtid"
def stub_add(I, st, c, args, retty, argtys):
    S = I.nat; r = args[0]; g = deref(args[1]); st = st.fork()
    I.store(st, r.cell, r.proj, Op("added", I.read(st, r.cell, r.proj), g))
    new = Bo(B("newgtid", g)); R = I.P.types[retty]
    return [(S.mkres(retty, True, new) if R["k"] == "adt" else new, st)]
def rename(x, f):
    """x with every symbol path mapped by f"""
    memo = {}
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ("ev", "old", "hd"): return f(x)
            return tuple(go(y) for y in x)
        if isinstance(x, (str, bytes, int, bool, type(None))): return x
        if id(x) in memo: return memo[id(x)][1]
        if isinstance(x, T.Lin): r = _sum(x, go)
        elif isinstance(x, T.Atom): r = atom(x.kind, go(x.args), x.lo, x.hi)
        elif isinstance(x, Adt): r = Adt(x.ty, x.var, go(x.f))
        elif isinstance(x, SymAdt): r = SymAdt(x.ty, go(x.path))
        elif isinstance(x, Tup): r = Tup(go(x.f))
        elif isinstance(x, RefV): r = RefV(go(x.v))
        elif isinstance(x, Seq): r = Seq(go(x.s))
        elif isinstance(x, Op): r = Op(x.n, *go(x.a))
        elif isinstance(x, Bo): r = Bo(go(x.c))
        else: raise Unsupported("state of the client: " + show(x)[:60])
        memo[id(x)] = (x, r); return r
    return go(x)
def _sum(x, go):
    r = K(x.c)
    for a, k in x.t: r = add(r, scale(A(go(a)), k))
    return r
def paths(x):
    out = set()
    rename(x, lambda p: (out.add(p), p)[1])
    return out
def settle(z, v):
    """v with its booleans and alternatives decided"""
    if isinstance(v, Bo): return mkbo(z.test(v.c))
    if isinstance(v, SymAdt) and len(z.P.variants(v.ty)) > 1:
        n, f = z.variant(v); return z.enum(v.ty, n, *[settle(z, x) for x in f])
    if isinstance(v, SymAdt) and z.P.types[v.ty]["path"] == CL_: v = z.P.expand(v)
    if isinstance(v, Adt): return Adt(v.ty, v.var, [settle(z, x) for x in v.f])
    if isinstance(v, Tup): return Tup([settle(z, x) for x in v.f])
    return v
def old(p): return ("old",) + p[1:] if p[0] == "ev" else p
class Node:
    """a client that committed some history, and what the property knows of that history"""
    def __init__(self, v, lits, open_, pend): self.v = v; self.lits = lits; self.open = open_; self.pend = pend
    def key(self): return (self.v, tuple(sorted(map(show_c, self.lits))), self.open, self.pend)
class History:
    def __init__(self, env, strat, has_list, has_set, aspect, reconnect=False, skip=""):
        self.env = env; self.P = env.P; self.strat = strat; self.aspect = aspect; self.reconnect = reconnect; self.skip = skip
        P = env.P; z = SP.S.__new__(SP.S); z.P = P
        self.CT = tyof(env, CL_); self.BT = tyof(env, BO); self.ET = tyof(env, BE); self.HT = tyof(env, HD)
        fs = {f[0]: f[1] for f in P.variants(self.BT)[0]["fields"]}
        def opt(name, yes, sym): return z.enum(fs[name], "Some", P.mksym(P.variants(fs[name])[1]["fields"][0][1], sym)) if yes else z.enum(fs[name], "None")
        self.binlog = {"filename": P.mksym(fs["filename"], ("saved", "filename")), "position": P.mksym(fs["position"], ("saved", "position")),
                       "gtid_list": opt("gtid_list", has_list, ("saved", "list")), "gtid_set": opt("gtid_set", has_set, ("saved", "set")),
                       "starting_strategy": z.enum(fs["starting_strategy"], strat)}
        self.OT = {f[0]: f[1] for f in P.variants(self.CT)[0]["fields"]}["options"]
        o = P.expand(SymAdt(self.OT, ("options",)))
        self.options = self.put(o, "binlog", Adt(self.BT, 0, [self.binlog[f[0]] for f in P.variants(self.BT)[0]["fields"]]))
        self.label = "%s%s%s" % (strat, ", GTID list" if has_list else "", ", GTID set" if has_set else "")
    def put(self, v, name, x):
        i = [f[0] for f in self.P.variants(v.ty)[0]["fields"]].index(name); f = list(v.f); f[i] = x
        return Adt(v.ty, 0, f)
    def start(self):
        SSL = None
        def opts(I, st):
            v = self.options
            fs = {f[0]: f[1] for f in self.P.variants(v.ty)[0]["fields"]}
            z = SP.S.__new__(SP.S); z.P = self.P
            if "ssl_mode" in fs: v = self.put(v, "ssl_mode", z.enum(fs["ssl_mode"], "Disabled"))
            self.options = v
            return v
        I, outs, av = self.env.analyse(NEW, {0: opts})
        nodes = []
        for v, st in outs: nodes += self.states(I, st, v, False, {})
        return nodes
    def states(self, I, st, v, open_, pend, z0=None):
        """nodes for the client v after a step"""
        def run(z):
            w = settle(z, z.P.expand(v) if isinstance(v, SymAdt) else v)
            w = self.put(w, "options", self.options)
            use = paths(w)
            if any(p[0] == "hd" for p in use): raise Unsupported("the client keeps a header")
            clash = {p for p in use if p[0] == "ev" and old(p) in use}
            if clash: raise Unsupported("the client keeps several events")
            lits = [c for c in z.ctx.lits if paths(c) and all(p in use for p in paths(c))]
            return Node(rename(w, old), rename(tuple(lits), old), open_(z) if callable(open_) else open_, tuple(sorted((k, rename(g, old), a) for k, (g, a) in pend.items())))
        return SP.for_all(I, st, [], run) if z0 is None else [run(z0)]
    def step(self, node, kind):
        """commit an event of the given kind; nodes reached"""
        P = self.P; vs = P.variants(self.ET); name = vs[kind]["name"]
        payload = [P.mksym(f[1], ("ev", name, f[0])) for f in vs[kind]["fields"]]
        ev = Adt(self.ET, kind, payload); hd = SymAdt(self.HT, ("hd",))
        def setup(I, st, av):
            for c in node.lits: st = st and st.assume(c)
            return st
        I, outs, av = self.env.analyse(COMMIT, {0: lambda I, st: MutRef(I.newcell(st, node.v, self.CT)), 1: RefV(hd), 2: RefV(ev)}, stubs=self.stubs(), setup=setup)
        nodes = []; rep = self.env.rep
        where = "%s (%s) after %s" % (COMMIT, self.label, name)
        for v, st in outs:
            rep.paths += 1
            def run(z):
                rep.cases += 1
                got = I.read(st, av[0].cell, av[0].proj)
                if isinstance(got, SymAdt): got = P.expand(got)
                o2, pend, fn, pos = self.reference(z, node, name, payload, hd)
                self.verify(z, got, o2[1], pend, fn, pos)
                out = {k: (g, a or e) for k, (g, a, e) in pend.items()}
                return self.states(I, z.st, got, o2[0], out, z)
            try: nodes += sum(SP.for_all(I, st, [n for n in st.notes if n[0] == "loop"], run), [])
            except Mismatch as m: rep.bad(where, m, st)
        for p in I.panics: check_panic(I, p, lambda z: "a result", rep, where)
        return nodes
    def stubs(self): return {p: stub_add for p in (ADDL, ADDS) if p in self.P.bypath}
    def reference(self, z, node, name, payload, hd):
        """(open, ended), pending {which: (gtid, already saved, enters now)}, file name, position"""
        pend = {k: (g, a, False) for k, g, a in node.pend}; op = node.open; end = False
        if name == "MariaDbGtidEvent":
            pend["gtid_list"] = (z.field(payload[0], "gtid"), False, False)
            op = z.test(eq(fmod(z.field(payload[0], "flags"), 2)))
        elif name == "MySqlGtidEvent": pend["gtid_set"] = (z.field(payload[0], "gtid"), False, False)
        elif name == "XidEvent": end = True
        elif name == "QueryEvent":
            q = z.field(payload[0], "sql_statement")
            if z.test(eq(slen(q))): pass
            elif z.same(q, b"BEGIN"): op = True
            elif z.same(q, b"COMMIT") or z.same(q, b"ROLLBACK"): end = True
            elif not op: end = True
        if end:
            op = False; pend = {k: (g, a, True) for k, (g, a, e) in pend.items()}
        fn, pos = self.binlog["filename"], self.binlog["position"]
        if name == "RotateEvent":
            fn, pos = z.field(payload[0], "binlog_filename"), z.field(payload[0], "binlog_position")
        elif name != "TableMapEvent":
            n = z.field(hd, "next_event_position")
            if z.test(gt(n, ZERO)): pos = n
        return (op, end), pend, fn, pos
    def verify(self, z, got, end, pend, fn, pos):
        o = z.field(got, "options"); b = z.field(o, "binlog")
        if self.aspect == "position":
            if not eqv(z, z.field(b, "filename"), fn): raise Mismatch("wrong saved file name", z.field(b, "filename"), fn)
            big = isinstance(pos, T.Lin) and z.test(ge(pos, K(1 << 32)))
            if not big and not eqv(z, z.field(b, "position"), pos): raise Mismatch("wrong saved position", z.field(b, "position"), pos)
            for nm, w in (("starting_strategy", self.binlog["starting_strategy"]),):
                if not eqv(z, z.field(b, nm), w): raise Mismatch("the starting strategy changes", z.field(b, nm), w)
            for f in z.P.variants(o.ty)[0]["fields"]:
                if f[0] != "binlog" and not eqv(z, z.field(o, f[0]), z.field(self.options, f[0])): raise Mismatch("option %s changes" % f[0], z.field(o, f[0]))
            return
        for k in ("gtid_list", "gtid_set"):
            was = self.binlog[k]; v = z.field(b, k); n, f = z.variant(v); wn, wf = z.variant(was)
            if n != wn: raise Mismatch("the saved %s appears or vanishes" % k, v, was)
            if n == "None": continue
            g, a, enters = pend.get(k, (None, False, False))
            enters = enters and self.strat == "FromGtid"
            x = f[0]; adds = []
            while isinstance(x, Op) and x.n == "added": adds.append(x.a[1]); x = x.a[0]
            if x != wf[0]:
                if eqv(z, x, wf[0]): pass
                else: raise Unsupported("the saved %s is changed in another way: %s" % (k, show(x)[:80]))
            for y in adds:
                if g is None or not (enters or a and self.strat == "FromGtid"): raise Mismatch("a GTID enters the saved %s although no transaction ends" % k, y)
                if not eqv(z, y, g): raise Mismatch("the wrong GTID enters the saved %s" % k, y, g)
            if enters and not a and not adds: raise Mismatch("the GTID of the ended transaction does not enter the saved %s" % k, None, g)
    def again(self, node):
        """nodes after a new connection"""
        import checks.session as SE
        def okay(val=None):
            def f(I, st, c, args, retty, argtys): return [(I.nat.mkres(retty, True, val(I, retty) if val else UNIT), st.fork())]
            return f
        def payload(I, retty): return I.P.mksym(I.P.types[retty]["args"][0], ("reply",))
        stubs = {p: okay(payload) for p in (SE.CONNECT, SE.CF + "adjust_starting_position", SE.CF + "set_master_heartbeat", SE.CF + "set_master_binlog_checksum", SE.MARIA, SE.MYSQL)}
        for p in stubs: self.env.fn(p, False)
        def chan(I, st, c, args, retty, argtys):
            t = I.P.types[I.P.types[retty]["args"][0]]["ts"][1]
            return [(I.nat.mkres(retty, True, Tup((Op("chan"), SymAdt(t, ("provider",))))), st.fork())]
        stubs[SE.CONNECT] = chan
        def setup(I, st, av):
            for c in node.lits: st = st and st.assume(c)
            return st
        I, outs, av = self.env.analyse(REPL_, {0: lambda I, st: MutRef(I.newcell(st, node.v, self.CT))}, stubs=stubs, setup=setup)
        nodes = []
        for v, st in outs:
            nodes += self.states(I, st, I.read(st, av[0].cell, av[0].proj), False, {})
        return nodes
    def explore(self, most=150):
        seen = {}; todo = self.start()
        for n in todo: seen[n.key()] = n
        while todo:
            n = todo.pop(0)
            nxt = []
            for k, v in enumerate(self.P.variants(self.ET)):
                if v["name"] != self.skip: nxt += self.step(n, k)
            if self.reconnect: nxt += self.again(n)
            for m in nxt:
                if m.key() not in seen: seen[m.key()] = m; todo.append(m)
            if len(seen) > most: raise Unsupported("too many states of the client")
            if self.env.rep.viol: break
        self.nodes = len(seen)
def ob_history(env, aspect, again=None):
    P = env.P
    def one(c):
        s, l, m, again, skip = c
        def go():
            h = History(env, s, l, m, aspect, again, skip); h.explore()
            env.notes.append("%s%s: %d client states" % (h.label, ("" if skip == "MySqlGtidEvent" else ", MySQL") + (", reconnecting" if again else ""), h.nodes))
        env.obligation("%s (%s, %s%s%s%s)" % (COMMIT, s, "MariaDB" if skip == "MySqlGtidEvent" else "MySQL", ", GTID list" if l else "", ", GTID set" if m else "", ", reconnecting" if again else ""), go)
    strats = [v["name"] for v in P.variants(tyof(env, "starting_strategy::StartingStrategy"))]
    # the GTIDs of a server are of one kind
    todo = [(s, l, m, g, x) for x in ("MySqlGtidEvent", "MariaDbGtidEvent") for s in strats for l in (0, 1) for m in (0, 1) for g in ((0, 1) if s == "FromGtid" else (0,))]
    if again: todo = [c for c in todo if c[3] and (c[1] if c[4] == "MySqlGtidEvent" else c[2])]
    env.parallel(todo, one)
