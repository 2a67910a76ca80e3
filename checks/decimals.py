"""DECIMAL cells."""
from checks.cells import *
SIZE = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4]
def groups(prec, scale):
    """sizes in digits of the groups of a DECIMAL(prec, scale), integral and fractional"""
    i = prec - scale
    a = ([i % 9] if i % 9 else []) + [9] * (i // 9)
    b = [9] * (scale // 9) + ([scale % 9] if scale % 9 else [])
    return a, b
def text(cu, prec, scale):
    a, b = groups(prec, scale)
    n = sum(SIZE[g] for g in a + b)
    q = Z.take(cu, n)
    by = [index(q, K(i), Z.ctx) for i in range(n)]
    neg_ = Z.test(lt(by[0], K(128)))
    # the first bit is inverted, and every bit of a negative number
    by = [(sub(K(127), x) if i == 0 else sub(K(255), x)) if neg_ else (sub(x, K(128)) if i == 0 else x) for i, x in enumerate(by)]
    vals = []; at = 0
    for g in a + b:
        v = ZERO
        for x in by[at:at + SIZE[g]]: v = add(scale_(v, 256), x)
        at += SIZE[g]
        # a group holds a number of that many digits
        if Z.test(ge(v, K(10 ** g))): raise DontCare()
        vals.append(v)
    out = els([K(45)]) if neg_ else Seq(())
    started = False
    for g, v in zip(a, vals):
        if started: out = cat(out, Z.nat.zpad(Z.st, v, K(g)))
        elif Z.test(ne(v)): started = True; out = cat(out, Z.dec(v))
    if not started: out = cat(out, els([K(48)]))
    if neg_ and not started and all(not Z.test(ne(v)) for v in vals[len(a):]): raise DontCare()   # no negative zero
    if b: out = cat(out, els([K(46)]))
    for g, v in zip(b, vals[len(a):]): out = cat(out, Z.nat.zpad(Z.st, v, K(g)))
    return out
def scale_(x, k): return scale(x, k)
def pairs():
    return [(p, s) for p in range(1, 66) for s in range(0, 31) if s <= p]
def ob_decimal(env, ps):
    env.start0 = False
    def one(ps):
        p, s = ps
        env.decode(DECI, lambda cu, m: text(cu, p, s), name="%s (DECIMAL(%d,%d))" % (DECI, p, s), args={1: K(s << 8 | p)}, public=False, pos=True)
    env.parallel(ps, one)
def ob_invalid(env):
    env.start0 = False
    def sp(cu, m):
        raise SErr("metadata")
    for p, s in ((0, 0), (0, 5), (5, 6), (1, 255)):
        env.decode(DECI, sp, name="%s (DECIMAL(%d,%d))" % (DECI, p, s), args={1: K(s << 8 | p)}, public=False)
