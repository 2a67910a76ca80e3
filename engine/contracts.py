"""Contracts of helpers that are verified on their own: callers are analysed against the contract instead of the body."""
from terms import *
from seqs import slen, Seq
from natives import HI63
from model import Unsupported
U64 = (1 << 64) - 1
OPQ = [0]

def opq_err(I, retty, what, args):
    """an error of unspecified content"""
    return I.nat.mkres(retty, False, Op("anyerr", what, args))

def lenenc_terms(ctx, q, p):
    q = ctx.norm(q); p = ctx.norm(p)
    return A(atom("app", ("lenenc", (q, p)), 0, U64)), A(atom("app", ("lenenclen", (q, p)), 1, 9)), B("lenencok", q, p)

def stub_lenenc(I, st, c, args, retty, argtys):
    S = I.nat
    k, r, v = S.reader(st, args[0])
    if k != "cur": raise Unsupported("length-encoded integer from " + k)
    q = S.seq(st, v.a[0]); p = v.a[1]
    val, n, okc = lenenc_terms(st.ctx, q, p)
    out = []
    ok, bad = st.split(okc)
    if ok is not None:
        ok = ok.assume(ge(slen(q), add(p, n)))
        if ok is not None:
            ok = ok.fork(); I.store(ok, r.cell, r.proj, Op("Cursor", v.a[0], add(p, n)))
            out.append((S.mkres(retty, True, val), ok))
    if bad is not None:
        bad = bad.fork(); I.store(bad, r.cell, r.proj, Op("Cursor", v.a[0], A(atom("app", ("errpos", ("lenenc", q, p)), 0, HI63))))
        out.append((opq_err(I, retty, "lenenc", (q, p)), bad))
    return out

LENENC = "extensions::read_len_enc_num"
