from checks.common import *
Z = Proxy()
META = dict(
    explanation="The integer, string and row readers are abstractly interpreted over their MIR on arbitrary bytes; loops are summarised and coupled with the loops of a reference reader; every outcome is compared with the reference on all inputs of its path.",
    rule="length-encoded integer: 1 byte below 0xFB, 2/3/8 little-endian bytes after FC/FD/FE, error otherwise; string: that many UTF-8 bytes; row: strings until the packet ends, in order; result set: rows until the end-of-file packet.",
    assumptions=ASSUME)
def cells(cu):
    def body(pos, acc):
        if not Z.test(lt(pos, slen(cu.q))): raise Brk(acc)
        c = Cur(cu.q, pos)
        x = Z.lenstr(c)
        return c.pos, cat(acc, els([x]))
    acc, = Z.loop(body, cu.pos, Seq(()))
    return acc
def run(env):
    X = "extensions::"
    @reg(env, X + "read_len_enc_num", public=False, pos=True)
    def num(cu): return Z.lenenc(cu)
    @reg(env, X + "read_len_enc_str", public=False, pos=True)
    def s(cu): return Z.lenstr(cu)
    @reg(env, X + "read_string", public=False, pos=True)
    def rs(cu, n): return Z.text(cu, n)
    @reg(env, X + "read_null_term_string", public=False, pos=True)
    def nts(cu):
        i, found = Z.until(cu, 0)
        return Z.utf8(i)
    @reg(env, "responses::result_set_row_packet::ResultSetRowPacket::parse", public=False, stubs=LEN)
    def row(q):
        return Z.struct("responses::result_set_row_packet::ResultSetRowPacket", cells=cells(Cur(q)))
    from checks import session as X
    RS = X.CF + "read_result_set"
    if RS in env.P.bypath:
        # rows handed on are exactly the packets between the column definitions and the end of the result set
        env.decode(RS, lambda c, ch: X.result_set(), stubs=X.stubs(env), check=X.done, public=False)
    else:
        # folded into its users: decided there
        env.decode(X.CF + "set_master_binlog_checksum", lambda c, ch: X.checksum(), stubs=X.stubs(env), check=X.done, public=False)
