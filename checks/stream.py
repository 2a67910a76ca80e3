"""Iteration over events: the live stream and the file reader."""
from checks.session import *
import checks.events as EV
PE = EV.PARSE; HDR = "events::event_header::EventHeader"; ERR = "errors::Error"; BE = "events::binlog_event::BinlogEvent"
LIVE = "<binlog_events::BinlogEvents as core::iter::traits::iterator::Iterator>::next"
FILE = "<binlog_reader::BinlogReader as core::iter::traits::iterator::Iterator>::next"
def stub_parse_event(I, st, c, args, retty, argtys):
    """any event, or any error; the parser moves to a state determined by what it was given"""
    S = I.nat
    a = args[0]; hdr = S.deref(st, args[1]); q = st.ctx.norm(S.seq(st, args[2]))
    before = I.read(st, a.cell, a.proj)
    key = (q, st.ctx.norm(hdr), st.ctx.norm(before)); out = []
    after = SymAdt(before.ty, ("parser-after",) + key)
    ev, er = [I.P.types[retty]["args"][i] for i in (0, 1)]
    eof = B("decoderan", *key)
    ok, bad = st.split(B("decodes", *key))
    if ok is not None:
        ok = ok.fork(); ok.emit("decode", q, hdr, before, None); I.store(ok, a.cell, a.proj, after)
        out.append((S.mkres(retty, True, SymAdt(ev, ("event",) + key)), ok))
    if bad is not None:
        vs = I.P.variants(er)
        io = next(i for i, v in enumerate(vs) if v["name"] == "IoError"); tx = next(i for i, v in enumerate(vs) if v["name"] == "String")
        for s, e in ((bad.assume(eof), Adt(er, io, [Op("ioerr", "UnexpectedEof")])), (bad.assume(neg(eof)), Adt(er, tx, [I.P.mksym(vs[tx]["fields"][0][1], ("why",) + key)]))):
            if s is None: continue
            s = s.fork(); s.emit("decode", q, hdr, before, e); I.store(s, a.cell, a.proj, after)
            out.append((S.mkres(retty, False, e), s))
    return out
def stub_header(I, st, c, args, retty, argtys):
    """header of 19 or more bytes; its decoder has its own obligation (C11)"""
    q = st.ctx.norm(I.nat.seq(st, args[0])); t = I.P.types[retty]["args"][0]
    ok, bad = st.split(ge(slen(q), K(19))); out = []
    if ok is not None: out.append((I.nat.mkres(retty, True, SymAdt(t, ("header", ok.ctx.norm(slice_(q, ZERO, K(19), ok.ctx))))), ok))
    if bad is not None: out.append((I.nat.mkres(retty, False, Op("anyerr", "header", q)), bad))
    return out
def header(q): return SymAdt(Z.ty(HDR), ("header", Z.ctx.norm(q)))
def base(env):
    if PE not in env.P.bypath: raise Gone(PE)
    if HDR + "::parse" not in env.P.bypath: raise Gone(HDR + "::parse")
    return {PE: stub_parse_event, HDR + "::parse": stub_header}
def opt(z, v):
    n, f = z.variant(v)
    return f[0] if n == "Some" else None
def result(z, v):
    n, f = z.variant(v)
    return n == "Ok", f[0]
def find_parser(z, I, st, v):
    return z.field(I.read(st, v.cell, v.proj), "parser")
def event_of(z, st, e, res, head, payload, before, after, what):
    """the item must be the decoding of head and payload"""
    if e is None or e[0] != "decode": raise Mismatch("%s is not decoded" % what)
    if not eqv(z, e[2], head): raise Mismatch("header %s is decoded with" % what, e[2], head)
    if not eqv(z, e[1], payload): raise Mismatch("payload of %s" % what, e[1], payload)
    if not eqv(z, e[3], before): raise Mismatch("%s is decoded with another parser state" % what, e[3], before)
    key = (z.ctx.norm(e[1]), z.ctx.norm(e[2]), z.ctx.norm(e[3]))
    ok, val = res
    if e[4] is None:
        if not ok: raise Mismatch("an error is yielded although %s decodes" % what, val)
        want = SymAdt(z.ty(BE), ("event",) + key)
        if not (isinstance(val, Tup) and eqv(z, val.f[0], head) and eqv(z, val.f[1], want)): raise Mismatch("item yielded for %s" % what, val, Tup([head, want]))
    elif ok: raise Mismatch("%s is yielded although it does not decode" % what, val)
    if not eqv(z, after, SymAdt(z.P.variants(before.ty) and before.ty, ("parser-after",) + key)): raise Mismatch("decoder state kept after %s" % what, after)
def ob_live(env):
    keep = {}
    def setup(I, st, av): keep["I"] = I; keep["self"] = av[0]; keep["parser"] = I.read(st, av[0].cell, av[0].proj)
    def one(z, v, st):
        I = keep["I"]; a = keep["self"]
        before = z.field(keep["parser"], "parser"); after = find_parser(z, I, st, a)
        log = [e for e in st.log if e[0] not in ("print",)]
        if not log or log[0][0] not in ("recv", "recverr"): raise Mismatch("an item is yielded without receiving a packet")
        if any(e[0] in ("recv", "recverr", "send", "senderr", "LOOP") for e in log[1:]): raise Mismatch("more than one exchange for one item")
        item = opt(z, v); dec = [e for e in log[1:] if e[0] == "decode"]
        if len(dec) > 1: raise Mismatch("one packet is decoded more than once")
        def err(what):
            if item is None: raise Mismatch("the stream ends on " + what)
            ok, val = result(z, item)
            if ok: raise Mismatch("an event is yielded for " + what, val)
            if dec: raise Mismatch("the parser is run for " + what)
            return val
        if log[0][0] == "recverr":
            e = err("a transport failure")
            if z.variant(e)[0] != "IoError": raise Mismatch("a transport failure is yielded as", e)
            return "transport"
        q = log[0][1]
        if not dec and not eqv(z, after, before): raise Mismatch("the parser state changes without an event", after, before)
        if z.test(eq(slen(q))): err("an empty packet"); return
        k = z.switch(index(q, ZERO, z.ctx), [0, 0xFF, 0xFE])
        if k == 0xFF: err("an error packet"); return "error"
        if k is None: err("a packet of another status"); return
        if k == 0xFE:
            if item is not None: raise Mismatch("an end-of-file packet does not end the stream", item)
            if dec: raise Mismatch("the parser is run for an end-of-file packet")
            return "end"
        if z.test(lt(slen(q), K(20))): err("an event packet without a whole header"); return
        if item is None: raise Mismatch("the stream ends on an event packet")
        event_of(z, st, dec[0] if dec else None, result(z, item), header(slice_(q, ONE, K(19), z.ctx)), slice_(q, K(20), sub(slen(q), K(20)), z.ctx), before, after, "the event of a packet")
        return "event"
    def ran(got):
        for k in ("event", "end", "error", "transport"):
            if k not in got: raise Mismatch("no path for an item of kind " + k)
    def go():
        s = {**base(env), **proto.stubs(env.P)}
        if ERRP + "::parse" in env.P.bypath: s[ERRP + "::parse"] = stub_errp
        each_path(env, LIVE, one, stubs=s, setup=setup, need_ok=ran)
    env.obligation(LIVE, go)
def fixed_buffers(env):
    """buffers of a reader that the constructor gives a constant length and nothing resizes"""
    ne = "binlog_reader::BinlogReader::new"
    I, outs, av = env.analyse(ne); r = None
    for v, st in outs:
        if not (isinstance(v, Adt) and v.var == 0): continue
        x = v.f[0]; d = {}
        for i, (nm, t, *_) in enumerate(env.P.variants(x.ty)[0]["fields"]):
            q = x.f[i]
            if isinstance(q, Seq) and slen(q).const is not None: d[i] = slen(q)
        r = d if r is None else {k: n for k, n in r.items() if d.get(k) == n}
    return r or {}
def ob_file(env, path, wrap):
    keep = {}
    bufs = fixed_buffers(env)
    def setup(I, st, av):
        keep["I"] = I; keep["self"] = av[0]; v = keep["parser"] = I.read(st, av[0].cell, av[0].proj)
        for i, n in bufs.items(): st = st.assume(eq(slen(I.nat.seq(st, I.P.field(v, i, 0))), n))
        return st
    def one(z, v, st):
        I = keep["I"]; a = keep["self"]
        before = z.field(keep["parser"], "parser"); after = find_parser(z, I, st, a)
        now = I.read(st, a.cell, a.proj)
        for i, n in bufs.items():
            if not eqv(z, slen(I.nat.seq(st, I.P.field(now, i, 0))), n): keep["resized"] = True
        log = [e for e in st.log if e[0] not in ("print",)]
        if any(e[0] not in ("read", "readsome", "readerr", "readshort", "decode") for e in log): raise Unsupported("file access by " + str([e[0] for e in log]))
        dec = [e for e in log if e[0] == "decode"]
        if len(dec) > 1: raise Mismatch("one event is decoded more than once")
        if not dec and not eqv(z, after, before): raise Mismatch("the parser state changes without an event", after, before)
        item = opt(z, v) if wrap else v
        got = Seq(())
        fail = None
        for e in log:
            if fail is not None and e[0] != "decode": raise Mismatch("the reader goes on after a failed read")
            if e[0] == "read": got = cat(got, e[2])
            elif e[0] == "readsome":
                # any number of bytes up to the one asked for; none at the end of the file
                if z.test(ge(e[1], ONE)) and z.test(eq(slen(e[2]))): fail = "readshort"
                got = cat(got, e[2])
            elif e[0] in ("readerr", "readshort"): fail = e[0]
        def err(what):
            if item is None: raise Mismatch("the iteration ends on " + what)
            ok, val = result(z, item)
            if ok: raise Mismatch("an event is yielded for " + what, val)
            if dec: raise Mismatch("the parser is run for " + what)
            return val
        if fail == "readshort":
            # the file ends inside the event
            if dec: raise Mismatch("an incomplete event is decoded")
            if wrap:
                if item is not None: raise Mismatch("an incomplete last event does not end the iteration", item)
            else: iokind(z, err("an incomplete event"), True)
            return
        if fail == "readerr":
            if dec: raise Mismatch("an event is decoded after a failed read")
            eof = z.test(failed_at_end(z, st))
            if wrap and eof:
                if item is not None: raise Mismatch("the end of the file does not end the iteration", item)
                return "end"
            iokind(z, err("a failed read"), eof)
            return
        n = z.ctx.norm(slen(got))
        if not z.test(ge(n, K(19))): raise Mismatch("less than a header is read", n)
        hd = header(slice_(got, ZERO, K(19), z.ctx))
        ln = z.field(hd, "event_length")
        if z.test(lt(ln, K(19))):
            if not eqv(z, n, K(19)): raise Mismatch("bytes read for an event of impossible length", n, K(19))
            err("an event shorter than its header"); return "short"
        if not eqv(z, n, ln): raise Mismatch("bytes read for one event", n, ln)
        if item is None: raise Mismatch("the iteration ends on a complete event")
        res = result(z, item)
        event_of(z, st, dec[0] if dec else None, res, hd, slice_(got, K(19), sub(ln, K(19)), z.ctx), before, after, "the event")
        return "event" if res[0] else "undecodable"
    def ran(got):
        for k in ("event",) + (("end",) if wrap else ()):
            if k not in got: raise Mismatch("no path for an item of kind " + k)
    def go():
        n = len(env.rep.viol)
        each_path(env, path, one, stubs=base(env), setup=setup, need_ok=ran)
        if keep.get("resized"):
            # the length of the buffer is not an invariant: nothing is known about it
            del env.rep.viol[n:]; bufs.clear()
            each_path(env, path, one, stubs=base(env), setup=setup, need_ok=ran, panics=False)
    env.obligation(path, go)
def failed_at_end(z, st):
    """did the failing read report the end of the file"""
    for nm in [b[1][0] for b, v in z.ctx.bools.items() if b[0] == "readfail" and v]:
        t = next(i for i, T in enumerate(z.P.types) if T["k"] == "adt" and T["path"].endswith("io::error::ErrorKind"))
        k = SymAdt(t, ("iokind", ("sym", nm)))
        want = next(int(w["discr"]) for w in z.P.variants(t) if w["name"] == "UnexpectedEof")
        return eq(z.P.discr_atom(k), K(want))
    raise Unsupported("failed read without a cause")
def iokind(z, e, eof):
    if z.variant(e)[0] != "IoError": raise Mismatch("a failed read is reported as", e)
def ob_open(env):
    path = "binlog_reader::BinlogReader::new"
    MAGIC = bytes([0xFE, 0x62, 0x69, 0x6E])
    def one(z, v, st):
        log = [e for e in st.log if e[0] != "print"]
        ok, val = outcome(z, v)
        if any(e[0] not in ("read", "readerr", "readshort") for e in log): raise Unsupported("file access")
        if any(e[0] != "read" for e in log):
            if ok: raise Mismatch("a file that cannot be read is opened")
            return
        got = Seq(())
        for e in log: got = cat(got, e[2])
        if not eqv(z, slen(got), K(4)): raise Mismatch("bytes read before the first event", slen(got), K(4))
        good = True
        for i in range(4):
            if not z.test(eq(index(got, K(i), z.ctx), K(MAGIC[i]))): good = False; break
        if ok != good: raise Mismatch("a file %s the magic number is %s" % ("with" if good else "without", "opened" if ok else "refused"))
        return ok
    def ran(got):
        if True not in got: raise Mismatch("no file can be opened")
    each_path(env, path, one, need_ok=ran)
