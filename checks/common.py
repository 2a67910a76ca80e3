from env import *
from seqs import *
import seqs
ASSUME = ["the models of the standard library and of byteorder in engine/ are faithful", "usize is 64 bits wide", "rustc's MIR is the program that runs"]
def reg(env, path, **kw):
    def d(f):
        env.decode(path, f, **kw)
        return f
    return d

def uuid_text(data):
    """lower-case 8-4-4-4-12 form of 16 bytes"""
    Z = Proxy(); r = []
    for i in range(16):
        if i in (4, 6, 8, 10): r.append(K(45))
        r += Z.nat.nibbles(index(data, K(i), Z.ctx))
    return els(r)
def uuid(data): return Proxy().struct("providers::mysql::gtid::uuid::Uuid", data=data, uuid=uuid_text(data))
import contracts
LEN = {contracts.LENENC: contracts.stub_lenenc}

def each_path(env, path, one, args=None, stubs=None, public=True, need_ok=None, name=None, setup=None, panics=True):
    """run one(z, value, state) on every path of a function, under every case it distinguishes"""
    name = name or path
    def go():
        I, outs, av = env.analyse(path, args, stubs, public, setup=setup)
        if env.rep.aspect: return
        got = []
        for v, st in outs:
            env.rep.paths += 1
            def run(z):
                env.rep.cases += 1
                return one(z, v, st)
            try: got += for_all(I, st, [n for n in st.notes if n[0] == "loop"], run)
            except Mismatch as m: env.rep.bad(name, m, st)
        if panics:
            for p in I.panics: check_panic(I, p, lambda z: "a result", env.rep, name)
        if need_ok is not None: need_ok(got)
    env.obligation(name, go)
def deref(v):
    while isinstance(v, RefV): v = v.v
    return v
def tyof(env, path):
    for i, t in enumerate(env.P.types):
        if t["k"] == "adt" and t["path"] == path: return i
    raise Unsupported("type %s is gone" % path)
def outcome(z, v):
    import spec
    return spec.outcome(z, v)
