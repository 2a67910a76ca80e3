from checks.session import *
META = dict(
    explanation="The error packet parser is compared with the reference layout on every input. Every function of session set-up and the event stream's error branch are abstractly interpreted against an arbitrary server; on every path on which a server reply starts with 0xFF the returned error text has to be built from the code, the SQL state and the message of exactly that packet.",
    rule="error text of a server error depends on code, SQL state and message of the packet after its 0xFF marker",
    assumptions=ASSUME)
def errpacket_value(q):
    cu = Cur(q)
    code = Z.le(cu, 2); text_ = Z.utf8(Z.rest(cu))
    return code, text_
def parts(x, out, wild):
    """data a text is made from: paths of structures, input segments, input bytes"""
    if isinstance(x, tuple):
        if len(x) == 5 and x[0] == "in": out.add(("seg", x[1])); wild.append(x)
        for e in x: parts(e, out, wild)
    elif isinstance(x, Lin):
        for a, k in x.t: parts(a, out, wild)
    elif isinstance(x, Atom):
        out.add((x.kind, x.args)); 
        for e in x.args: parts(e, out, wild)
    elif isinstance(x, Seq): parts(x.s, out, wild)
    elif isinstance(x, (Adt, Tup)): parts(x.f, out, wild)
    elif isinstance(x, RefV): parts(x.v, out, wild)
    elif isinstance(x, Op): parts(x.a, out, wild)
    elif isinstance(x, SymAdt): out.add(("adt", x.path)); parts(x.path, out, wild)
    elif isinstance(x, Bo): parts(x.c, out, wild)
def mentions(x, path, field):
    out = set(); parts(x, out, [])
    for k, a in out:
        if k == "adt" and a == path: return True
        f = path + (field,)
        if a == f or (isinstance(a, tuple) and a and (a[0] == f or a == (f,))): return True
        if k == "adt" and a[:len(f)] == f: return True
        if isinstance(a, tuple) and a and isinstance(a[0], tuple) and a[0][:len(f)] == f: return True
        if k == "seg" and isinstance(a, tuple) and a[:len(f)] == f: return True
    return False
def reported(z, st, err, q):
    """the error built from the error packet q (with its marker)"""
    tail = z.ctx.norm(slice_(q, ONE, sub(slen(q), ONE), z.ctx))
    if ERRP + "::parse" in z.I.stubs:
        k = z.ctx.bools.get(("errpacketok", (tail,)))
        if k is None: raise Mismatch("the error packet is not parsed from the byte after its marker")
        if k is False: return
        path = ("errpacket", tail)
        for f in ("error_code", "error_message", "sql_state"):
            if f == "sql_state" and none_state(z, path): continue
            if not mentions(err, path, f): raise Mismatch("the error does not contain the %s of the server's error packet" % f.replace("_", " "), err)
def none_state(z, path):
    t = z.fty(ERRP, "sql_state")
    d = z.P.discr_atom(SymAdt(t, path + ("sql_state",)))
    return z.ctx.norm(d).const == 0
def chk(z, st, val, err):
    done(z, st, val, err)
    if err is not None and err.kind == "server": reported(z, st, val, err.arg)
def run(env):
    env.focus = set()
    # the parser
    def ep(q):
        cu = Cur(q); code = Z.le(cu, 2); t = Z.utf8(Z.rest(cu))
        env.ep = (code, t)
    def ec(z, st, val, err):
        if err is not None: return
        code, t = env.ep
        if not eqv(z, z.field(val, "error_code"), code): raise Mismatch("wrong error code", z.field(val, "error_code"), code)
        name, f = z.variant(z.field(val, "sql_state")); msg = z.field(val, "error_message")
        marked = z.test(ge(slen(t), ONE)) and z.test(eq(index(t, ZERO, z.ctx), K(0x23)))
        if not marked:
            if name != "None": raise Mismatch("an SQL state without its marker")
            if not eqv(z, msg, t): raise Mismatch("wrong error message", msg, t)
            return
        if name != "Some": raise Mismatch("the SQL state is dropped")
        t = z.ctx.norm(t)
        cty = next((i for i, x in enumerate(z.P.types) if x["k"] == "char"), None)
        cs = Seq((("app", "chars", (t,), A(atom("lenof", ("chars", t), 0, HI63)), cty),)); n = slen(cs)
        def piece(lo, hi): return Seq((("app", "fromchars", (cs, z.ctx.norm(lo), z.ctx.norm(hi)), A(atom("lenof", ("fromchars", cs, z.ctx.norm(lo), z.ctx.norm(hi)), 0, HI63)), "u8"),))
        def upto(k): return K(k) if z.test(ge(n, K(k))) else n
        a, e = upto(1), upto(6)
        bytes_state = slice_(t, ONE, K(5), z.ctx) if z.ctx.entails(ge(slen(t), K(6))) else None
        if not (eqv(z, f[0], piece(a, e)) or bytes_state is not None and eqv(z, f[0], bytes_state)): raise Mismatch("wrong SQL state", f[0], piece(a, e))
        bytes_msg = slice_(t, K(6), sub(slen(t), K(6)), z.ctx) if bytes_state is not None else None
        if not (eqv(z, msg, piece(e, n)) or bytes_msg is not None and eqv(z, msg, bytes_msg)): raise Mismatch("wrong error message", msg, piece(e, n))
    env.decode(ERRP + "::parse", ep, check=ec, public=False)
    # its users
    env.decode(CONNECT, lambda c: (connect(c), None)[1], stubs=stubs(env, new=True), check=chk, args={0: lambda I, st: RefV(plain(I, st))}, public=False)
    env.decode(CF + "adjust_starting_position", lambda c, ch: (adjust(c), None)[1], stubs=stubs(env), check=chk, public=False)
    env.decode(CF + "set_master_heartbeat", lambda c, ch: (heartbeat(c), None)[1], stubs=stubs(env), check=chk, public=False)
    env.decode(CF + "set_master_binlog_checksum", lambda c, ch: (checksum(), None)[1], stubs=stubs(env), check=chk, public=False)
    env.decode(MARIA, lambda c, o, i: (replicate_mariadb(o, i), None)[1], stubs=stubs(env), check=chk, public=False)
    env.decode(MYSQL, lambda c, o, i: (replicate_mysql(o, i), None)[1], stubs={**stubs(env), SER: stub_ser}, check=chk, public=False)
    # the event stream
    def stream(s, p):
        if not Z.test(ge(slen(p), ONE)): raise DontCare()
        raise SErr("server", p)
    env.decode(EV + "::read_error", stream, stubs={ERRP + "::parse": stub_errp}, check=lambda z, st, val, err: reported(z, st, val, err.arg) if err is not None else None, public=False)
