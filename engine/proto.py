"""The packet channel as seen by session set-up: one event per packet received or sent."""
from terms import *
from seqs import slen, mkseq
from model import Unsupported
READ = "packet_channel::PacketChannel::read_packet"
WRITE = "packet_channel::PacketChannel::write_packet"
def stub_read(I, st, c, args, retty, argtys):
    S = I.nat
    nm = S.newname(st, "pkt")
    n = A(atom("len", (nm,), 0, (1 << 24) - 1))
    q = mkseq([("in", nm, ZERO, n, "u8")])
    seq = A(atom("sym", (nm + ("seq",),), 0, 255))
    bad = st.fork(); bad.emit("recverr"); bad.ctx = bad.ctx.assume(B("recvfail", nm)) or bad.ctx
    ok = st.fork(); ok.emit("recv", q, seq); ok.ctx = ok.ctx.assume(neg(B("recvfail", nm))) or ok.ctx
    return [(S.mkres(retty, True, Tup((q, seq))), ok), (S.mkres(retty, False, Op("ioerr", ("sym", nm))), bad)]
def stub_write(I, st, c, args, retty, argtys):
    S = I.nat
    q = S.seq(st, args[1]); n = args[2]
    nm = S.newname(st, "snd")
    bad = st.fork(); bad.emit("senderr", q, n); bad.ctx = bad.ctx.assume(B("sendfail", nm)) or bad.ctx
    ok = st.fork(); ok.emit("send", q, n); ok.ctx = ok.ctx.assume(neg(B("sendfail", nm))) or ok.ctx
    return [(S.mkres(retty, True, UNIT), ok), (S.mkres(retty, False, Op("ioerr", ("sym", nm))), bad)]
def stubs(P):
    for p in (READ, WRITE):
        if p not in P.bypath: raise Unsupported("%s does not exist" % p)
    return {READ: stub_read, WRITE: stub_write}
