"""Reference protocol of session set-up, written over the abstract packets received and sent."""
from checks.common import *
import proto
Z = Proxy()
CL = "connect::<impl binlog_client::BinlogClient>::"
CF = "configure::<impl binlog_client::BinlogClient>::"
NEW = "packet_channel::PacketChannel::new"; TLS = "packet_channel::PacketChannel::upgrade_to_ssl"
HSP = "responses::handshake_packet::HandshakePacket"; SWP = "responses::auth_switch_packet::AuthPluginSwitchPacket"
ERRP = "responses::error_packet::ErrorPacket"; ROW = "responses::result_set_row_packet::ResultSetRowPacket"

# ---- contracts
def stub_new(I, st, c, args, retty, argtys):
    S = I.nat
    bad = st.fork(); bad.emit("openerr"); bad.ctx = bad.ctx.assume(B("openfail", ())) or bad.ctx
    ok = st.fork(); ok.emit("open"); ok.ctx = ok.ctx.assume(neg(B("openfail", ()))) or ok.ctx
    return [(S.mkres(retty, True, Op("chan")), ok), (S.mkres(retty, False, Op("ioerr", ("sym", "open"))), bad)]
def stub_tls(I, st, c, args, retty, argtys):
    st = st.fork(); st.emit("tls")
    T = I.P.types[retty]
    if T["k"] == "adt" and T["path"].endswith("Result"): return [(I.nat.mkres(retty, True, UNIT), st)]
    return [(UNIT, st)]
def parsed(name):
    """contract of a packet parser: some value of its type determined by the bytes, or an error determined by the bytes"""
    def stub(I, st, c, args, retty, argtys):
        q = st.ctx.norm(I.nat.seq(st, args[0])); out = []
        ok, bad = st.split(B(name + "ok", q))
        t = I.P.types[retty]["args"][0]
        if ok is not None: out.append((I.nat.mkres(retty, True, SymAdt(t, (name, q))), ok))
        if bad is not None: out.append((I.nat.mkres(retty, False, Op("anyerr", name, q)), bad))
        return out
    return stub
def by_contract(name, path, q):
    q = Z.ctx.norm(q)
    if not Z.test(B(name + "ok", q)): raise SErr(name)
    return SymAdt(Z.ty(path), (name, q))
stub_errp = parsed("errpacket")
def row_cells(P, q):
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and t["path"] == ROW: sty = P.elemty(P.variants(i)[0]["fields"][0][1])
    return Seq((("app", "cells", (q,), A(atom("lenof", ("cells", q), 0, HI63)), sty),)), B("rowok", q)
def stub_row(I, st, c, args, retty, argtys):
    q = st.ctx.norm(I.nat.seq(st, args[0])); out = []
    cs, okc = row_cells(I.P, q)
    ok, bad = st.split(okc)
    t = I.P.types[retty]["args"][0]
    if ok is not None: out.append((I.nat.mkres(retty, True, Adt(t, 0, [cs])), ok))
    if bad is not None: out.append((I.nat.mkres(retty, False, Op("anyerr", "row", q)), bad))
    return out
HI63 = (1 << 63) - 1
def stubs(env, new=False, row=True, errp=True, greet=True):
    r = proto.stubs(env.P)
    if new and NEW in env.P.bypath: r[NEW] = stub_new
    elif new: raise Unsupported("%s does not exist" % NEW)
    if TLS in env.P.bypath: r[TLS] = stub_tls
    if row and ROW + "::parse" in env.P.bypath and len(env.P.variants(tyof(env, ROW))[0]["fields"]) == 1: r[ROW + "::parse"] = stub_row
    for n, t in ((("handshake", HSP), ("authswitch", SWP)) if greet else ()):
        if t + "::parse" in env.P.bypath: r[t + "::parse"] = parsed(n)
    if errp and ERRP + "::parse" in env.P.bypath: r[ERRP + "::parse"] = stub_errp
    return r
def tyof(env, path):
    for i, t in enumerate(env.P.types):
        if t["k"] == "adt" and t["path"] == path: return i
    raise Unsupported("type %s is gone" % path)

# ---- reference
def text(s): return const_seq(s.encode())
def reply(what):
    """a reply that is neither empty nor an error"""
    q, s = Z.recv(what)
    if Z.test(eq(slen(q))): raise SErr("empty")
    if Z.test(eq(index(q, ZERO, Z.ctx), K(0xFF))): raise SErr("server", q)
    return q, s
def nxt(s): return fmod(add(s, ONE), 256)
def query(sql, what, aspects=("query",)):
    Z.send(cat(const_seq(b"\x03"), sql if isinstance(sql, Seq) else text(sql)), ZERO, what, aspects)
def row(q):
    if ROW + "::parse" in Z.I.stubs:
        cs, ok = row_cells(Z.P, Z.ctx.norm(q))
        if not Z.test(ok): raise SErr("row")
    else:
        from checks.c28 import cells
        cs = cells(Cur(q))
    return Z.struct(ROW, cells=cs)
def result_set():
    reply("the column count")
    def meta():
        q, _ = reply("a column definition")
        if Z.test(eq(index(q, ZERO, Z.ctx), K(0xFE))): raise Brk()
        return ()
    Z.loop(meta)
    def rows(acc):
        q, _ = reply("a result row")
        if Z.test(eq(index(q, ZERO, Z.ctx), K(0xFE))): raise Brk(acc)
        return cat(acc, els([row(q)]))
    acc, = Z.loop(rows, Seq(()))
    return acc
def cell(rs, r, c):
    x = index(rs, K(r), Z.ctx, Z.ty(ROW))
    cs = Z.field(x, "cells")
    sty = Z.P.elemty(Z.fty(ROW, "cells"))
    return cs, lambda i: index(cs, K(i), Z.ctx, sty)

def handshake_value(q):
    cu = Cur(q); n = {}
    proto_ = Z.u8(cu); version = Z.utf8(Z.until(cu, 0)[0]); conn = Z.le(cu, 4)
    nonce = Z.utf8(Z.until(cu, 0)[0])
    lo = Z.le(cu, 2); coll = Z.u8(cu); status = Z.le(cu, 2); mid = Z.le(cu, 2); plen = Z.u8(cu); fill = Z.utf8(Z.take(cu, 6)); hi = Z.le(cu, 4)
    caps = add(add(lo, scale(mid, 1 << 16)), scale(hi, 1 << 32))
    if Z.flag(lo, 1 << 15): nonce = cat(nonce, Z.utf8(Z.until(cu, 0)[0]))
    name = Seq(())
    if Z.flag(mid, 1 << 3): name = Z.utf8(Z.until(cu, 0)[0])
    return Z.struct(HSP, protocol_version=proto_, server_version=version, connection_id=conn, scramble=nonce, server_capabilities=caps, server_collation=coll,
                    status_flags=status, filler=fill, auth_plugin_length=plen, auth_plugin_name=name)
def switch_value(q):
    cu = Cur(q); name = Z.utf8(Z.until(cu, 0)[0]); nonce = Z.utf8(Z.until(cu, 0)[0])
    return Z.struct(SWP, auth_plugin_name=name, auth_plugin_data=nonce)
class G: pass
def handshake(q):
    v = by_contract("handshake", HSP, q) if HSP + "::parse" in Z.I.stubs else handshake_value(q)
    g = G(); g.version = Z.field(v, "server_version"); g.caps = Z.field(v, "server_capabilities"); g.nonce = Z.field(v, "scramble"); g.plugin = Z.field(v, "auth_plugin_name")
    return g
def plugin(name):
    if Z.same(name, b"mysql_native_password"): return "native"
    if Z.same(name, b"caching_sha2_password"): return "sha2"
    raise SErr("plugin")
def digest(alg, q): return Seq((("app", alg, (Z.ctx.norm(q),), K({"sha1": 20, "sha256": 32}[alg]), "u8"),))
def proof(pl, pw, nonce):
    if Z.test(eq(slen(pw))): return Seq(())
    alg = "sha1" if pl == "native" else "sha256"
    h = digest(alg, pw); m = digest(alg, cat(nonce, digest(alg, h)))
    return els([Z.xor(index(h, K(i), Z.ctx), index(m, K(i), Z.ctx)) for i in range(20 if alg == "sha1" else 32)])
def plain(I, st):
    """a client on an unencrypted link"""
    t = next(i for i, x in enumerate(I.P.types) if x["k"] == "adt" and x["path"] == "binlog_client::BinlogClient")
    v = I.P.expand(SymAdt(t, ("self",)))
    fs = [f[0] for f in I.P.variants(t)[0]["fields"]]
    o = I.P.expand(v.f[fs.index("options")]); os_ = [f[0] for f in I.P.variants(o.ty)[0]["fields"]]
    k = os_.index("ssl_mode"); mt = I.P.variants(o.ty)[0]["fields"][k][1]
    dis = [i for i, x in enumerate(I.P.variants(mt)) if x["name"] == "Disabled"][0]
    of = list(o.f); of[k] = Adt(mt, dis, []); vf = list(v.f); vf[fs.index("options")] = Adt(o.ty, 0, of)
    return Adt(t, 0, vf)
def option(v):
    n, f = Z.variant(v)
    return f[0] if n == "Some" else None
CAPS = 1 << 2 | 1 << 9 | 1 << 15 | 1 << 19
def authenticate(opts, g, seq):
    pl = plugin(g.plugin); pw = Z.field(opts, "password"); tls = False
    mode, _ = Z.variant(Z.field(opts, "ssl_mode"))
    if mode != "Disabled":
        if Z.flag(g.caps, 1 << 11):
            Z.send(cat(Z.int_le(K(CAPS | 1 << 11), 4), const_seq(b"\0\0\0\0\x2d" + b"\0" * 23)), seq, "the TLS request", ("tls",))
            Z.event("tls", "the upgrade to TLS"); tls = True; seq = nxt(seq)
        elif mode != "IfAvailable": raise SErr("no TLS")
    pr = proof(pl, pw, g.nonce)
    db = option(Z.field(opts, "database"))
    body = cat(Z.int_le(K(CAPS | (1 << 3 if db is not None else 0)), 4), const_seq(b"\0\0\0\0\x2d" + b"\0" * 23), Z.field(opts, "username"), const_seq(b"\0"),
               els([slen(pr)]), pr, cat(db, const_seq(b"\0")) if db is not None else Seq(()), g.plugin, const_seq(b"\0"))
    Z.send(body, seq, "the handshake response", ("proof", "response"))
    r, s = reply("the authentication result")
    k = Z.switch(index(r, ZERO, Z.ctx), [0, 0xFE])
    if k == 0: return
    if k is None:
        if pl != "sha2": raise DontCare()
        return sha2(pw, g.nonce, r, nxt(s), tls)
    q = Z.ctx.norm(slice_(r, ONE, sub(slen(r), ONE), Z.ctx))
    v = by_contract("authswitch", SWP, q) if SWP + "::parse" in Z.I.stubs else switch_value(q)
    name = Z.field(v, "auth_plugin_name"); nonce = Z.field(v, "auth_plugin_data")
    pl = plugin(name)
    Z.send(proof(pl, pw, nonce), nxt(s), "the reply to the plugin switch", ("proof",))
    r, s = reply("the authentication result after a plugin switch")
    if Z.test(eq(index(r, ZERO, Z.ctx))): return
    if pl != "sha2": raise SErr("switch")
    sha2(pw, nonce, r, nxt(s), tls)
def sha2(pw, nonce, r, seq, tls):
    if Z.test(lt(slen(r), K(2))): raise SErr("short")
    if not Z.test(eq(index(r, ZERO, Z.ctx), ONE)): raise SErr("unexpected")
    k = Z.switch(index(r, ONE, Z.ctx), [3, 4])
    if k == 3:
        reply("the final authentication result"); return
    if k is None: raise DontCare()
    secret = cat(Z.ctx.norm(pw), const_seq(b"\0"))
    if tls:
        Z.send(secret, seq, "the password over TLS", ("proof",)); reply("the final authentication result"); return
    Z.send(const_seq(b"\x02"), seq, "the request of the public key", ("proof", "secret"))
    r, s = reply("the public key")
    if not Z.test(eq(index(r, ZERO, Z.ctx), ONE)): raise DontCare()
    key = Z.ctx.norm(slice_(r, ONE, sub(slen(r), ONE), Z.ctx))
    if Z.test(eq(slen(nonce))): raise SErr("nonce")
    kap = atom("kap", ("probe",), 0, HI63); i = A(kap)
    masked = mkseq([seqs.mkgen(Z.ctx.norm(slen(secret)), kap, Z.xor(index(secret, i, Z.ctx), index(nonce, A(atom("rem", (i, slen(nonce)), 0, HI63)), Z.ctx)))])
    enc = ciphertext(key, masked)
    Z.send(enc, nxt(s), "the encrypted password", ("proof", "secret"))
    reply("the final authentication result")
def ciphertext(key, masked):
    """RSA-OAEP of the masked password, or an error"""
    if not Z.test(B("rsakey", key, "public_key_from_pem")): raise SErr("key")
    # the code's own ciphertext term when it encrypts the same text
    e = Z.log[Z.li] if Z.li < len(Z.log) else None
    for l in Z.ctx.lits:
        if l[0] in ("b", "nb") and l[1] == "rsaenc":
            k, src, pad = l[2]
            if not eqv(Z_(), k, key): raise Mismatch("the key used for encryption", k, key)
            if not eqv(Z_(), src, masked): raise Mismatch("the text that is encrypted", src, masked)
            if pad.f[0].const != 4: raise Mismatch("the padding used for encryption", pad, K(4))
            if l[0] == "nb": raise SErr("rsa")
            return Seq((("app", "rsa", (k, src, pad), A(atom("app", ("rsasize", (k,)), 0, 1 << 16)), "u8"),))
    raise Mismatch("the password is not RSA-encrypted")
def Z_():
    import spec
    return spec.ACTIVE[0]
def deref(v):
    while isinstance(v, RefV): v = v.v
    return v
def connect(client):
    opts = Z.field(deref(client), "options")
    Z.event("open", "a connection")
    q, s = reply("the server greeting")
    g = handshake(q)
    authenticate(opts, g, nxt(s))
    return g
def provider(g): return "MariaDB" if Z.test(rebuild_bool("str_contains", (Z.ctx.norm(g.version), text("MariaDB")))) else "MySQL"

def strategy(binlog): return Z.variant(Z.field(binlog, "starting_strategy"))[0]
def with_field(v, name, x):
    v = Z.P.expand(v) if isinstance(v, SymAdt) else v
    fs = [f[0] for f in Z.P.variants(v.ty)[0]["fields"]]
    f = list(v.f); f[fs.index(name)] = x
    return Adt(v.ty, 0, f)
def adjust(client):
    """client after the starting position was adjusted"""
    opts = Z.field(client, "options"); b = Z.field(opts, "binlog")
    if strategy(b) != "FromEnd": return client
    if not Z.test(eq(slen(Z.field(b, "filename")))): return client
    query("show master status", "the position query")
    rs = result_set()
    if not Z.test(eq(slen(rs), ONE)): raise SErr("rows")
    cs, at = cell(rs, 0, 0)
    if Z.test(lt(slen(cs), K(2))): raise SErr("cells")
    p = Z.ctx.norm(at(1))
    if not Z.test(B("parses", p, "u32")): raise SErr("position")
    b = with_field(with_field(b, "filename", at(0)), "position", A(atom("app", ("parse", (p, "u32")), 0, (1 << 32) - 1)))
    return with_field(client, "options", with_field(opts, "binlog", b))
def heartbeat(client):
    d = Z.field(Z.field(client, "options"), "heartbeat_interval")
    ns = d.a[0]
    query(cat(text("set @master_heartbeat_period="), Z.dec(scale(fdiv(ns, 10**6), 10**6))), "the heartbeat period", ("query", "heartbeat"))
    reply("the result of setting the heartbeat period")
CK = "constants::checksum_type::ChecksumType"
def checksum():
    query("SET @master_binlog_checksum= @@global.binlog_checksum", "the checksum setting")
    reply("the result of the checksum setting")
    query("SELECT @master_binlog_checksum", "the checksum query")
    rs = result_set()
    if Z.test(eq(slen(rs))): raise SErr("rows")
    cs, at = cell(rs, 0, 0)
    if Z.test(eq(slen(cs))): raise SErr("cells")
    n = Z.ctx.norm(at(0))
    if Z.same(n, b"NONE"): return Z.enum(CK, "None")
    if Z.same(n, b"CRC32"): return Z.enum(CK, "Crc32")
    raise SErr("checksum")
def dump(b, sid): 
    return cat(const_seq(b"\x12"), Z.int_le(Z.field(b, "position"), 4), const_seq(b"\0\0"), Z.int_le(sid, 4), Z.field(b, "filename"))
def replicate_mariadb(opts, sid):
    opts = deref(opts); b = Z.field(opts, "binlog")
    query("SET @mariadb_slave_capability=4", "the capability setting"); reply("the result of the capability setting")
    if strategy(b) == "FromGtid":
        l = option(Z.field(b, "gtid_list"))
        if l is None: raise SErr("no list")
        query(cat(text("SET @slave_connect_state='"), gtid_list_text(l), text("'")), "the connect state", ("query", "dump")); reply("the result of the connect state")
        query("SET @slave_gtid_strict_mode=0", "the strict mode"); reply("the result of the strict mode")
        query("SET @slave_gtid_ignore_duplicates=0", "the duplicates mode"); reply("the result of the duplicates mode")
        Z.send(cat(const_seq(b"\x15"), Z.int_le(Z.field(opts, "server_id"), 4), const_seq(b"\0" * 13)), ZERO, "the replica registration", ("dump",))
        reply("the result of the registration")
    Z.send(dump(b, sid), ZERO, "the dump request", ("dump",))
M2 = "providers::mariadb::"
def gtid_list_text(l):
    gs = Z.field(l, "gtids"); kap = atom("kap", ("probe",), 0, HI63)
    g = index(gs, A(kap), Z.ctx, Z.ty(M2 + "gtid::gtid::Gtid"))
    t = cat(Z.dec(Z.field(g, "domain_id")), text("-"), Z.dec(Z.field(g, "server_id")), text("-"), Z.dec(Z.field(g, "sequence")))
    q = Z.ctx.norm(mkseq([seqs.mkgen(slen(gs), kap, t)]))
    return Seq((("app", "concat", (q, text(",")), A(atom("lenof", ("concat", q, text(",")), 0, HI63)), "u8"),))
GTID_BYTES = [None]
def replicate_mysql(opts, sid):
    opts = deref(opts); b = Z.field(opts, "binlog")
    if strategy(b) != "FromGtid":
        Z.send(dump(b, sid), ZERO, "the dump request", ("dump",)); return
    s = option(Z.field(b, "gtid_set"))
    if s is None: raise SErr("no set")
    Z.send(gtid_dump(b, sid, s), ZERO, "the GTID dump request", ("dump",))
SER = "commands::dump_binlog_gtid_command::DumpBinlogGtidCommand::serialize"
def stub_ser(I, st, c, args, retty, argtys):
    S = I.nat
    cmd = S.deref(st, args[0]); s = S.deref(st, args[1])
    q, okc = ser_terms(st.ctx, I.P, cmd, s)
    ok, bad = st.split(okc); out = []
    if ok is not None: out.append((S.mkres(retty, True, q), ok))
    if bad is not None: out.append((S.mkres(retty, False, Op("anyerr", "ser", s)), bad))
    return out
def ser_terms(ctx, P, cmd, s):
    f = {n[0]: P.field(cmd, i) for i, n in enumerate(P.variants(cmd.ty)[0]["fields"])}
    key = tuple(ctx.norm(f[k]) for k in ("server_id", "binlog_filename", "binlog_position", "flags")) + (ctx.norm(s),)
    return Seq((("app", "gtiddump", key, A(atom("lenof", ("gtiddump",) + key, 0, HI63)), "u8"),)), B("gtiddumpok", *key)
def gtid_dump(b, sid, s):
    if SER in Z.I.stubs:
        key = tuple(Z.ctx.norm(x) for x in (sid, Z.field(b, "filename"), Z.field(b, "position"), ZERO, s))
        if not Z.test(B("gtiddumpok", *key)): raise SErr("set")
        return Seq((("app", "gtiddump", key, A(atom("lenof", ("gtiddump",) + key, 0, HI63)), "u8"),))
    raise Unsupported("GTID dump request without its serializer")

def done(z, st, val, err):
    """nothing is exchanged beyond what the reference exchanges"""
    rest = [e for e in z.log[z.li:] if e[0] != "print"]
    if rest: raise Mismatch("after the exchange has to end (%s) the code %s" % ("error: %s" % err.kind if err is not None else "success", DIDX(rest[0])))
def DIDX(e):
    import spec
    return spec.DID.get(e[0], e[0])

# ---- obligations shared by the checks
MARIA = "providers::mariadb::mariadb_provider::replicate_mariadb"; MYSQL = "providers::mysql::mysql_provider::replicate_mysql"
REPL = "binlog_client::BinlogClient::replicate"; CONNECT = CL + "connect"
EV = "binlog_events::BinlogEvents"; PARSER = "events::event_parser::EventParser"; PROV = "constants::database_provider::DatabaseProvider"
def state_is(env, z, st, want, what):
    import spec
    # what the client keeps besides the options is its own affair
    got = z.field(env.I0.read(st, env.av0[0].cell, env.av0[0].proj), "options"); want = z.field(want, "options")
    if not eqv(z, got, want): raise Mismatch(what + spec.diffpath(z, got, want))
def ob_heartbeat(env): env.decode(CF + "set_master_heartbeat", lambda c, ch: (heartbeat(c), None)[1], stubs=stubs(env), check=done, public=False)
def ob_checksum(env): env.decode(CF + "set_master_binlog_checksum", lambda c, ch: checksum(), stubs=stubs(env), check=done, public=False)
def ob_mariadb(env): env.decode(MARIA, lambda c, o, i: (replicate_mariadb(o, i), None)[1], stubs=stubs(env), check=done, public=False)
def ob_mysql(env): env.decode(MYSQL, lambda c, o, i: (replicate_mysql(o, i), None)[1], stubs={**stubs(env), SER: stub_ser}, check=done, public=False)
def ob_adjust(env, state=False):
    want = [None]
    def sp(c, ch):
        want[0] = c; want[0] = adjust(c)
    def chk(z, st, val, err):
        done(z, st, val, err)
        if state: state_is(env, z, st, want[0], "the client after choosing the starting position is wrong")
    env.decode(CF + "adjust_starting_position", sp, stubs=stubs(env), check=chk, public=False)
def ob_connect(env, ssl=False, value=False):
    def sp(c):
        g = connect(c)
        if not value: return None
        return Tup((Op("chan"), Z.enum(PROV, provider(g))))
    a = None if ssl else {0: lambda I, st: RefV(plain(I, st))}
    env.decode(CONNECT, sp, name=CONNECT + (" (any TLS mode)" if ssl else " (no TLS)"), stubs=stubs(env, new=True), check=done, args=a, public=False)
def stub_connect(I, st, c, args, retty, argtys):
    S = I.nat
    bad = st.fork(); bad.emit("connecterr"); bad.ctx = bad.ctx.assume(B("connectfail", ())) or bad.ctx
    ok = st.fork(); ok.emit("connect"); ok.ctx = ok.ctx.assume(neg(B("connectfail", ()))) or ok.ctx
    t = I.P.types[retty]["args"][0]; pt = I.P.types[t]["ts"][1] if "ts" in I.P.types[t] else None
    return [(S.mkres(retty, True, Tup((Op("chan"), SymAdt(pt, ("provider",))))), ok), (S.mkres(retty, False, Op("ioerr", ("sym", "connect"))), bad)]
def opt_none(v, name):
    v = Z.P.expand(v) if isinstance(v, SymAdt) else v
    fs = Z.P.variants(v.ty)[0]["fields"]
    i = [f[0] for f in fs].index(name)
    f = list(v.f); f[i] = Z.enum(fs[i][1], "None")
    return Adt(v.ty, 0, f)
def ob_replicate(env):
    want = [None]
    def sp(c):
        Z.event("connect", "the connection")
        p, _ = Z.variant(SymAdt(Z.ty(PROV), ("provider",)))
        want[0] = c; c = want[0] = adjust(c)
        heartbeat(c)
        ck = checksum()
        o = Z.field(c, "options")
        sid = Z.field(o, "server_id") if Z.test(Z.field(o, "blocking")) else ZERO
        (replicate_mariadb if p == "MariaDB" else replicate_mysql)(o, sid)
        return Z.struct(EV, channel=Op("chan"), parser=Z.struct(PARSER, checksum_type=ck, table_map=Op("map", None, ())))
    def chk(z, st, val, err):
        done(z, st, val, err)
        if err is None or err.kind != "connect":
            if want[0] is not None: state_is(env, z, st, want[0], "the client's replication state after (re)connecting is wrong")
    env.decode(REPL, lambda c: (want.__setitem__(0, None), sp(c))[1], stubs={**stubs(env), SER: stub_ser, CONNECT: stub_connect}, check=chk)
def with_bool(v, name, b): return with_field(v, name, Bo(b))
def ob_gtid_dump_bytes(env):
    """bytes of the GTID dump request"""
    import contracts
    U = "providers::mysql::gtid::uuid_set::UuidSet"; IV = "providers::mysql::gtid::interval::Interval"
    def sp(cmd, s):
        m = Z.field(s, "uuid_sets"); sets = seqs_of_map(m, U); n = slen(sets)
        u = lambda k: index(sets, k, Z.ctx, Z.ty(U))
        def total(k, acc):
            if not Z.test(lt(k, n)): raise Brk(acc)
            return add(k, ONE), add(add(acc, K(24)), scale(slen(Z.field(u(k), "intervals")), 16))
        tot, = Z.loop(total, ZERO, K(8))
        fn = Z.field(cmd, "binlog_filename")
        head = cat(const_seq(b"\x1e"), Z.int_le(Z.field(cmd, "flags"), 2), Z.int_le(Z.field(cmd, "server_id"), 4), Z.int_le(slen(fn), 4), fn,
                   Z.int_le(Z.field(cmd, "binlog_position"), 4), const_seq(b"\0\0\0\0"), Z.int_le(tot, 4), Z.int_le(n, 8))
        def each(k, out):
            if not Z.test(lt(k, n)): raise Brk(out)
            x = u(k); ivs = Z.field(x, "intervals")
            out = cat(out, Z.field(Z.field(x, "source_id"), "data"), Z.int_le(slen(ivs), 8))
            def inner(j, out):
                if not Z.test(lt(j, slen(ivs))): raise Brk(out)
                iv = index(ivs, j, Z.ctx, Z.ty(IV))
                e = Z.field(iv, "end")
                if not Z.test(lt(e, K((1 << 64) - 1))): raise SErr("end")
                return add(j, ONE), cat(out, Z.int_le(Z.field(iv, "start"), 8), Z.int_le(add(e, ONE), 8))
            out, = Z.loop(inner, ZERO, out)
            return add(k, ONE), out
        out, = Z.loop(each, ZERO, head)
        return out
    env.decode(SER, sp, public=False)
def seqs_of_map(m, path):
    return Seq((("app", "mapvalues", (m,), Z.nat.map_len(m), Z.ty(path)),))

def ob_handshake(env):
    env.decode(HSP + "::parse", handshake_value, public=False)
def ob_switch(env): env.decode(SWP + "::parse", switch_value, public=False)
