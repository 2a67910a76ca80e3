"""Dispatch of events: the decoder chosen, the bytes it is given, and the decoder state left behind."""
from checks.common import *
Z = Proxy()
PARSE = "events::event_parser::EventParser::parse_event"; PARSER = "events::event_parser::EventParser"
R = "events::row_events::"
M1 = "providers::mysql::events::"; M2 = "providers::mariadb::events::"
# code: (variant, decoder, extra arguments)
KINDS = {
    2: ("QueryEvent", "events::query_event::QueryEvent::parse", ()),
    4: ("RotateEvent", "events::rotate_event::RotateEvent::parse", ()),
    5: ("IntVarEvent", "events::intvar_event::IntVarEvent::parse", ()),
    14: ("UserVarEvent", "events::uservar_event::UserVarEvent::parse", ()),
    15: ("FormatDescriptionEvent", "events::format_description_event::FormatDescriptionEvent::parse", ("header",)),
    16: ("XidEvent", "events::xid_event::XidEvent::parse", ()),
    19: ("TableMapEvent", "events::table_map_event::TableMapEvent::parse", ()),
    23: ("WriteRowsEvent", R + "write_rows_event::WriteRowsEvent::parse", ("tables", 1)),
    24: ("UpdateRowsEvent", R + "update_rows_event::UpdateRowsEvent::parse", ("tables", 1)),
    25: ("DeleteRowsEvent", R + "delete_rows_event::DeleteRowsEvent::parse", ("tables", 1)),
    27: ("HeartbeatEvent", "events::heartbeat_event::HeartbeatEvent::parse", ()),
    29: ("RowsQueryEvent", "events::rows_query_event::RowsQueryEvent::parse_mysql", ()),
    30: ("WriteRowsEvent", R + "write_rows_event::WriteRowsEvent::parse", ("tables", 2)),
    31: ("UpdateRowsEvent", R + "update_rows_event::UpdateRowsEvent::parse", ("tables", 2)),
    32: ("DeleteRowsEvent", R + "delete_rows_event::DeleteRowsEvent::parse", ("tables", 2)),
    33: ("MySqlGtidEvent", M1 + "gtid_event::GtidEvent::parse", ()),
    35: ("MySqlPrevGtidsEvent", M1 + "prev_gtids_event::PreviousGtidsEvent::parse", ()),
    160: ("RowsQueryEvent", "events::rows_query_event::RowsQueryEvent::parse_mariadb", ()),
    162: ("MariaDbGtidEvent", M2 + "gtid_event::GtidEvent::parse", ("header",)),
    163: ("MariaDbGtidListEvent", M2 + "gtid_list_event::GtidListEvent::parse", ()),
}
def stub_decoder(path):
    def stub(I, st, c, args, retty, argtys):
        S = I.nat
        cu = I.read(st, args[0].cell, args[0].proj)
        q, pos = S.seq(st, cu.a[0]), cu.a[1]
        extra = tuple(st.ctx.norm(deref_(I, st, a)) for a in args[1:])
        key = (path, st.ctx.norm(slice_(q, pos, sub(slen(q), pos), st.ctx))) + extra
        t = I.P.types[retty]["args"][0]
        ok, bad = st.split(B("decodes", *key)); out = []
        for s, good in ((ok, True), (bad, False)):
            if s is None: continue
            s = s.fork(); s.emit("decode", path, key[1], extra, good)
            I.store(s, args[0].cell, args[0].proj, Op("Cursor", cu.a[0], A(atom("sym", (("after",) + key,), 0, HI63))))
            out.append((S.mkres(retty, True, SymAdt(t, ("event",) + key)), s) if good else (S.mkres(retty, False, Op("anyerr", "event", key)), s))
        return out
    return stub
HI63 = (1 << 63) - 1
def deref_(I, st, a):
    a = I.nat.deref(st, a) if isinstance(a, (RefV, MutRef)) else a
    return a
def decoders(env, public=True):
    r = {}
    for k, (v, p, x) in KINDS.items():
        if p not in env.P.bypath: raise Gone(p)
        r[p] = stub_decoder(p)
    return r
def dispatch(env, aspect):
    """aspect: kind, checksum, tables, failed"""
    st0 = {}
    def setup(I, st, av):
        st0["parser"] = I.read(st, av[0].cell, av[0].proj); st0["I"] = I; st0["av"] = av
    def one(z, v, st):
        I = st0["I"]; av = st0["av"]
        ok, val = outcome(z, v)
        hdr = deref(av[1]); q = deref(av[2]); before = st0["parser"]
        after = I.read(st, av[0].cell, av[0].proj)
        mode, _ = z.variant(z.field(before, "checksum_type"))
        n = slen(q)
        cut = mode == "Crc32"
        es = [e for e in st.log if e[0] == "decode"]
        def same(name): return eqv(z, z.field(after, name), z.field(before, name))
        short = cut and not z.test(ge(n, K(4)))
        want = slice_(q, ZERO, sub(n, K(4)) if cut else n, z.ctx) if not short else None
        code = z.switch(z.field(hdr, "event_type"), sorted(KINDS))
        if aspect == "checksum":
            if short:
                if ok: raise Mismatch("an event too short to hold its checksum is accepted")
                return
            for e in es:
                if not eqv(z, e[2], want): raise Mismatch("bytes given to the decoder %s (checksum mode %s)" % (e[1], mode), e[2], want)
        if aspect == "kind" and not short:
            if code is None:
                if not ok: raise Mismatch("an event of an unknown type yields an error", val)
                if z.variant(val)[0] != "UnknownEvent": raise Mismatch("an event of an unknown type yields", val)
                return "unknown"
            var, path, extra = KINDS[code]
            if not ok:
                if not es or es[-1][4] or es[-1][1] != path: raise Mismatch("an event of type %d yields an error although %s does not report one" % (code, path), val)
                return
            name, f = z.variant(val)
            if name != var: raise Mismatch("an event of type %d is decoded as %s" % (code, name))
            if not isinstance(f[0], SymAdt) or f[0].path[:2] != ("event", path): raise Mismatch("an event of type %d is not the result of %s" % (code, path), f[0])
            e = [e for e in es if e[1] == path][-1]
            for x, a in zip(extra, e[3]):
                w = {"header": hdr, "tables": None}.get(x, K(x) if isinstance(x, int) else None)
                if w is not None and not eqv(z, deref(a), w): raise Mismatch("%s is given" % path, a, w)
            return code
        if aspect == "tables" and not short and code is not None:
            for e in es:
                for x, a in zip(KINDS[code][2], e[3]):
                    if x == "tables" and e[1] == KINDS[code][1] and not eqv(z, deref(a), z.field(before, "table_map")): raise Mismatch("definitions given to %s" % e[1], a, z.field(before, "table_map"))
        if not ok:
            if aspect == "failed" or aspect == "checksum":
                if not same("checksum_type"): raise Mismatch("a failed decode changes the checksum mode", z.field(after, "checksum_type"), z.field(before, "checksum_type"))
            if aspect == "failed" or aspect == "tables":
                if not same("table_map"): raise Mismatch("a failed decode changes the table definitions", z.field(after, "table_map"), z.field(before, "table_map"))
            return
        if aspect == "checksum":
            if code == 15:
                fde = z.variant(val)[1][0]
                if not eqv(z, z.field(after, "checksum_type"), z.field(fde, "checksum_type")): raise Mismatch("checksum mode after a format description event", z.field(after, "checksum_type"), z.field(fde, "checksum_type"))
            elif not same("checksum_type"): raise Mismatch("an event of type %s changes the checksum mode" % code, z.field(after, "checksum_type"), z.field(before, "checksum_type"))
        if aspect == "tables":
            m0, m1 = z.field(before, "table_map"), z.field(after, "table_map")
            if code == 19:
                tm = z.variant(val)[1][0]
                got = lookup(z, m1, z.field(tm, "table_id"), m0)
                if got is None: raise Mismatch("a decoded table map is not the (only) new definition of its table id", m1)
                if not eqv(z, got, tm): raise Mismatch("definition stored for a table id", got, tm)
            elif not same("table_map"): raise Mismatch("an event of type %s changes the table definitions" % code, m1, m0)
        return "ok"
    def ran(got):
        if not any(got): raise Mismatch("no event can be decoded")
        if aspect == "kind":
            for k in KINDS:
                if k not in got: raise Mismatch("no path decodes events of type %d" % k)
            if "unknown" not in got: raise Mismatch("no path yields the unknown event")
    def go():
        ds = decoders(env)
        each_path(env, PARSE, one, stubs=ds, setup=setup, need_ok=ran, name=PARSE + " (%s)" % aspect)
    env.obligation(PARSE + " decoders", go)
def lookup(z, m, key, base):
    """entry of the map m = base + {key: ...}"""
    m = z.ctx.norm(m); b = z.ctx.norm(base)
    if not (isinstance(m, Op) and m.n == "map"): return None
    extra = [e for e in m.a[1] if e not in b.a[1]]
    if m.a[0] != b.a[0] or len(extra) != 1 or len(m.a[1]) != len(b.a[1]) + 1: return None
    k, v = extra[0][0], extra[0][1]
    return v if eqv(z, k, key) else None
