from checks.session import *
META = dict(
    explanation="The heartbeat command, the connection set-up and the channel constructor are abstractly interpreted over their MIR for every heartbeat interval; the text sent and the timeout set are compared as arithmetic terms over the interval, on every path.",
    rule="period = interval truncated to milliseconds, in ns; read timeout = interval + latency allowance (> 0), set on the connected stream before the constructor returns; no read before",
    assumptions=ASSUME + ["TcpStream::set_read_timeout sets the timeout of reads"])
def run(env):
    env.focus = {"heartbeat"}
    ob_heartbeat(env)
    ob_replicate(env)
    def timeout():
        I, outs, av = env.analyse(NEW, None, None, public=False)
        n = 0
        for v, st in outs:
            env.rep.paths += 1; env.rep.cases += 1
            if not (isinstance(v, Adt) and v.var == 0): continue
            d = [f for f in [0]][0]
            o = av[0]
            while isinstance(o, RefV): o = o.v
            fs = [f[0] for f in env.P.variants(o.ty)[0]["fields"]]
            ns = env.P.field(o, fs.index("heartbeat_interval")).a[0]
            log = [e for e in st.log if e[0] not in ("print",)]
            t = [e for e in log if e[0] == "set_read_timeout"]
            if not t: raise Mismatch("a connection is used without a read timeout")
            last = t[-1][-1]
            if isinstance(last, Adt):
                if last.var == 0: raise Mismatch("the read timeout is switched off")
                last = last.f[0]
            if not (isinstance(last, Op) and last.n == "dur"): raise Mismatch("the read timeout does not follow the heartbeat interval", last)
            extra = st.ctx.norm(sub(last.a[0], ns))
            if extra.const is None: raise Mismatch("the read timeout is not the heartbeat interval plus a fixed allowance", last.a[0])
            if extra.const < 10**9: raise Mismatch("the read timeout leaves no allowance (at least one second) for the latency of heartbeats", extra)
            if any(e[0].startswith("net") or "read" in e[0] and e[0] != "set_read_timeout" for e in log[:log.index(t[0])]): raise Mismatch("the stream is read before its timeout is set")
            n += 1
        if not n: raise Mismatch("no connection can be set up")
    env.obligation(NEW + ": read timeout", timeout)
