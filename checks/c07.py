from checks.session import *
META = dict(
    explanation="Every function of session set-up is abstractly interpreted over its MIR for a client without TLS against an arbitrary server; every packet sent, every text printed and every error returned on every path is a term over the inputs, and each occurrence of the stored password in it (bytes or length) has to lie inside a digest that also covers the server nonce (or a digest nested in one), or inside an RSA encryption. The authentication exchange is compared with the reference proofs as well.",
    rule="password -> {SHA1/SHA256 proof, RSA-OAEP of the masked password} -> packet; no other flow from the password to a packet, log or error",
    assumptions=ASSUME + ["SHA1, SHA256 and RSA-OAEP are one-way", "OpenSSL error texts do not contain the text to encrypt", "control dependence on the password (is it empty) is not a leak"])
SECRET = "password"
def leaks(x, inside=False, seen=None):
    """an occurrence of the password outside every one-way function, or None"""
    if isinstance(x, tuple):
        if len(x) >= 3 and x[0] == "app" and x[1] in ("sha1", "sha256", "rsa"):
            if x[1] == "rsa": return leaks(x[2][0])
            # a digest of the password alone is not a proof: it may appear only inside another digest or masked by one
            return None
        if len(x) > 0 and SECRET in x and all(isinstance(e, (str, int)) for e in x): return x
        for e in x:
            r = leaks(e)
            if r is not None: return r
        return None
    if isinstance(x, Lin):
        for a, k in x.t:
            r = leaks(a)
            if r is not None: return r
        return None
    if isinstance(x, Atom):
        if x.kind == "app" and x.args and x.args[0] in ("sha1", "sha256", "rsa", "rsasize"): return None
        if x.kind == "lenof" and x.args and x.args[0] in ("rsa",): return None
        return leaks(x.args)
    if isinstance(x, Seq): return leaks(x.s)
    if isinstance(x, (Adt, Tup)): return leaks(x.f)
    if isinstance(x, RefV): return leaks(x.v)
    if isinstance(x, Op): return None if x.n == "opensslerr" else leaks(x.a)
    if isinstance(x, SymAdt):
        # a whole structure that holds the password, as data
        if x.path and x.path[-1] in ("options", "self"): return x.path
        return leaks(x.path)
    if isinstance(x, Bo): return leaks(x.c)
    return None
def flows(env, path, args=None, st=None, name=None):
    name = name or path
    def go():
        I, outs, av = env.analyse(path, args, st, public=False)
        n = 0
        seen = set()
        for v, s in outs:
            env.rep.paths += 1
            sinks = [("a packet sent", e[1]) for e in s.log if e[0] in ("send", "senderr")] + [("text printed", e[1:]) for e in s.log if e[0] == "print"]
            if isinstance(v, Adt) and v.var == 1: sinks.append(("an error returned", v.f[0]))
            for what, x in sinks:
                if isinstance(x, V) and (what, x) in seen: continue
                if isinstance(x, V): seen.add((what, x))
                env.rep.cases += 1
                l = leaks(x)
                if l is not None: raise Mismatch("%s depends on the password (%s) outside a one-way function: %s" % (what, l, show(x)[:200] if isinstance(x, V) else x))
    env.obligation("password flows from " + name, go)
def run(env):
    env.focus = {"proof"}
    a = {0: lambda I, st: RefV(plain(I, st))}
    flows(env, CONNECT, a, stubs(env, new=True, errp=False))
    for p in (CF + "adjust_starting_position", CF + "set_master_heartbeat", CF + "set_master_binlog_checksum", MARIA): flows(env, p, None, stubs(env))
    flows(env, MYSQL, None, {**stubs(env), SER: stub_ser})
    ob_connect(env)
    flows(env, NEW)
