from checks.session import *
import proto
META = dict(
    explanation="The two functions that read and write packets are abstractly interpreted over their MIR on an arbitrary socket (any operation may fail or be short); the bytes written and the bytes consumed on every path are compared with the framing as terms over body, number and received bytes.",
    rule="write: le24(len) number body, all or error, refused when len >= 0xFFFFFF; read: 4 bytes, then exactly le24 of them; (body, number) returned; any failed transfer is an error",
    assumptions=ASSUME + ["read_exact and write_all transfer everything or fail, as the standard library documents"])
OPS = {"read", "readerr", "readsome", "readtoend", "write", "writeerr", "writesome", "LOOP"}
def run(env):
    def rd():
        I, outs, av = env.analyse(proto.READ, None, None, public=False)
        oks = 0
        def one(z, v, st):
            env.rep.cases += 1
            isok, val = spec_outcome(z, v)
            es = [e for e in st.log if e[0] in OPS]
            if any(e[0] == "LOOP" for e in es): raise Unsupported("reads in a loop")
            bad = [e for e in es if e[0] == "readerr"]
            if not isok:
                if not bad: raise Mismatch("an error although every read succeeded", val)
                return
            if bad: raise Mismatch("a failed or short read is not reported as an error")
            for e in es:
                if e[0] != "read": raise Mismatch("a %s during a read of a packet" % ("partial read" if e[0] == "readsome" else e[0]))
            s = cat(*[e[2] for e in es]) if es else Seq(())
            n = slen(s)
            if not z.ctx.entails(ge(n, K(4))): raise Mismatch("a packet is returned without reading its header")
            size = bytes3(z, s)
            if not eqv(z, n, add(K(4), size)): raise Mismatch("number of bytes read for a packet", n, add(K(4), size))
            body, seq = val.f[0], val.f[1]
            want = slice_(s, K(4), size, z.ctx)
            if not eqv(z, seq, index(s, K(3), z.ctx)): raise Mismatch("sequence number handed on", seq, index(s, K(3), z.ctx))
            if not eqv(z, body, want): raise Mismatch("packet body handed on", body, want)
            return True
        ok = False
        for v, st in outs:
            env.rep.paths += 1
            r = for_all(I, st, (), lambda z: one(z, v, st))
            ok = ok or any(r)
        if not ok: raise Mismatch("no packet can be read")
    env.obligation(proto.READ, rd)
    def wr():
        I, outs, av = env.analyse(proto.WRITE, None, None, public=False)
        body = av[1]
        while isinstance(body, RefV): body = body.v
        def one(z, v, st):
            env.rep.cases += 1
            isok, val = spec_outcome(z, v)
            es = [e for e in st.log if e[0] in OPS]
            if any(e[0] == "LOOP" for e in es): raise Unsupported("writes in a loop")
            fits = z.test(lt(slen(body), K(0xFFFFFF)))
            bad = [e for e in es if e[0] == "writeerr"]
            if not fits:
                if isok: raise Mismatch("a body that does not fit one packet is accepted")
                if es: raise Mismatch("part of a body that does not fit one packet is sent")
                return
            if not isok:
                if not bad: raise Mismatch("a body that fits one packet is refused", val)
                return
            if bad: raise Mismatch("a failed write is not reported as an error")
            for e in es:
                if e[0] != "write": raise Mismatch("a partial write may be taken for a complete one")
            s = cat(*[e[1] for e in es]) if es else Seq(())
            want = cat(z.int_le(slen(body), 3), els([av[2]]), body)
            if not eqv(z, s, want): raise Mismatch("bytes sent for a packet", s, want)
            return True
        ok = False
        for v, st in outs:
            env.rep.paths += 1
            r = for_all(I, st, (), lambda z: one(z, v, st))
            ok = ok or any(r)
        if not ok: raise Mismatch("no packet can be written")
    env.obligation(proto.WRITE, wr)
def spec_outcome(z, v):
    import spec
    return spec.outcome(z, v)
def bytes3(z, s): return add(add(index(s, ZERO, z.ctx), scale(index(s, ONE, z.ctx), 256)), scale(index(s, K(2), z.ctx), 65536))
