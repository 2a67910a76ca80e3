"""Models of the library functions the crate calls (std, byteorder, digest, hex, openssl)."""
import re
from terms import *
import terms, seqs
from seqs import slen, els, const_seq, cat, mkseq, Seq, slice_, index, push
from model import Unsupported

NONE, SOME = 0, 1
OK, ERR = 0, 1

def sym_sel_eq(args):
    return None

def utf8_rebuild(args):
    q = args[0]
    b = seqs.const_bytes(q)
    if b is not None:
        try: b.decode("utf-8"); return True
        except UnicodeDecodeError: return False
    if all(s[0] in ("txt",) or (s[0] == "app" and s[1] in TEXT_APPS) or (s[0] == "k" and all(c < 128 for c in s[1])) for s in q.s): return True
    return None
TEXT_APPS = {"dec", "zpad", "hex", "HEX", "decf", "pad", "concat", "disp", "dbg", "trim", "replace", "fromchars"}
REBUILD_BOOL["utf8"] = utf8_rebuild

def seqeq_rebuild(args):
    return seqeq_cond(args[0], args[1])
def seqeq_cond(a, b):
    """condition for two sequences being equal"""
    if a == b: return True
    ca, cb = seqs.const_bytes(a), seqs.const_bytes(b)
    if ca is not None and cb is not None: return ca == cb
    la, lb = slen(a), slen(b)
    e = eq(la, lb)
    if e is False: return False
    if la.const == 0 or lb.const == 0: return e
    if la.const is not None and la == lb and la.const <= 8:
        from dom import Ctx
        c = Ctx(); cs = []
        for i in range(la.const):
            x, y = index(a, K(i), c), index(b, K(i), c)
            if not isinstance(x, Lin) or not isinstance(y, Lin): break
            k = eq(x, y)
            if k is False: return False
            if k is not True: cs.append(k)
        else:
            if not cs: return True
            r = cs[-1]
            for k in reversed(cs[:-1]): r = ("b", "and", (k, r))
            return r
    x, y = (a, b)
    if ca is not None or (cb is None and repr(a) > repr(b)): x, y = b, a
    return ("b", "seqeq", (x, y))
REBUILD_BOOL["seqeq"] = seqeq_rebuild
def and_rebuild(args):
    a, b = args
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return ("b", "and", (a, b))
REBUILD_BOOL["and"] = and_rebuild
def sym_rebuild(args):
    p = args[0]
    if isinstance(p, tuple) and len(p) >= 2 and isinstance(p[0], tuple) and p[0] and p[0][0] == "sel" and isinstance(p[1], Lin):
        from dom import Ctx
        v = index(p[0][1], p[1], Ctx(), seqs.MODEL[0].byname.get("bool"))
        if isinstance(v, Bo): 
            if v.c != ("b", "sym", args): return v.c
    return None
REBUILD_BOOL["sym"] = sym_rebuild
def el_rebuild(a, args):
    p = args[0]
    if isinstance(p, tuple) and p and p[0] == "sel" and len(args) == 2:
        from dom import Ctx
        v = index(p[1], args[1], Ctx(), None)
        if isinstance(v, Lin): return v
    return None
REBUILD["by"] = el_rebuild
def uint_rebuild(a, args):
    q, n, en = args
    n = n.const if isinstance(n, Lin) else n
    if n is not None and slen(q).const == n: return bytes_int(seqs.byte_list(q, n), en)
REBUILD["uint"] = uint_rebuild
def len_rebuild(a, args):
    return None
def rem_rebuild(a, args):
    x, y = args
    if x.const == 0: return ZERO
    if y.const is not None and y.const > 0 and rng(x)[0] >= 0: return fmod(x, y.const)
REBUILD["rem"] = rem_rebuild
def quo_rebuild(a, args):
    x, y = args
    if y.const is not None and y.const > 0 and rng(x)[0] >= 0: return fdiv(x, y.const)
REBUILD["quo"] = quo_rebuild
def sh_rebuild(a, args):
    x, s = args
    if s.const is not None:
        if a.kind == "shr": return fdiv(x, 1 << s.const)
        y = scale(x, 1 << s.const)
        if rng(y)[1] <= a.hi: return y
        if a.lo == 0: return fmod(y, int(a.hi) + 1)
REBUILD["shl"] = sh_rebuild; REBUILD["shr"] = sh_rebuild

def bytes_int(bs, en):
    r = ZERO
    n = len(bs)
    for i, b in enumerate(bs):
        r = add(r, scale(b, 1 << (8 * (i if en == "le" else n - 1 - i))))
    return r
def signed(x, bits):
    """two's complement reading of an unsigned value"""
    if x.const is not None: return K(x.c - (1 << bits) if x.c >= 1 << (bits - 1) else x.c)
    top = fdiv(x, 1 << (bits - 1))
    return sub(x, scale(top, 1 << bits))

HI63 = (1 << 63) - 1
class Natives:
    def __init__(self, I):
        self.I = I; self.P = I.P
        self.tab = {}
        for n in dir(self):
            f = getattr(self, n)
            for p in getattr(f, "paths", ()) if callable(f) else (): self.tab[p] = f
        self.fresh = 0
        self.cache = {}
    # ---------- helpers ----------
    def call(self, st, c, args, retty, argtys):
        p = c["path"]
        f = self.tab.get(p)
        ip = c.get("ipath") or p
        if f is None: f = self.tab.get(ip)
        if f is None:
            f = self.cache.get(p)
            if f is None:
                f = False
                for rx, g in PATTERNS:
                    if rx.search(p) or rx.search(ip): f = getattr(self, g); break
                self.cache[p] = f
        if not f: return None
        return f(st, c, args, retty, argtys)
    def deref(self, st, v):
        """value behind any chain of references"""
        while True:
            if isinstance(v, RefV): v = v.v
            elif isinstance(v, MutRef): v = self.I.read(st, v.cell, v.proj)
            elif isinstance(v, Op) and v.n == "box": v = v.a[0]
            else: return v
    def seq(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, Seq): return v
        raise Unsupported("sequence expected: " + show(v)[:80])
    def mref(self, st, v):
        """the innermost &mut place"""
        while True:
            if not isinstance(v, MutRef): raise Unsupported("&mut expected: " + show(v)[:60])
            w = self.I.read(st, v.cell, v.proj)
            if isinstance(w, MutRef): v = w
            else: return v
    def put(self, st, ref, v):
        r = self.mref(st, ref)
        self.I.store(st, r.cell, r.proj, v)
    def mkres(self, retty, ok, v): return Adt(retty, OK if ok else ERR, [v])
    def some(self, retty, v): return Adt(retty, SOME, [v])
    def none(self, retty): return Adt(retty, NONE, [])
    def newname(self, st, kind):
        """deterministic name for an unknown coming from outside, unique per position in the event log"""
        i = 0; lid = 0; kap = ()
        for e in st.log:
            if e[0] == "LOOP":
                lid = e[1]; i = 0; kap = (A(atom("kap", (lid,), 0, (1 << 63) - 1)),)
            else: i += 1
        return (kind, lid, i) + kap
    def duration_const(self, c):
        def find(x):
            if x[0] == "int": return [int(x[1])]
            if x[0] in ("adt",): return [y for f in x[2] for y in find(f)]
            return []
        v = find(c)
        if len(v) == 2: return Op("dur", K(v[0] * 10**9 + v[1]))
        raise Unsupported("duration constant %s" % c)
    def discr(self, v):
        if v.n == "cmp":
            raise Unsupported("discriminant of a comparison")
        if v.n == "errkind": return A(atom("errkind", v.a, 0, 255))
        raise Unsupported("discriminant of " + show(v)[:60])
    def as_int(self, v): raise Unsupported("switch on " + show(v)[:60])

def nat(*paths):
    def d(f):
        f.paths = paths
        return f
    return d
PATTERNS = []
def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f.__name__))
        return f
    return d
def method(f):
    setattr(Natives, f.__name__, f); return f

# ======================= control =======================
@method
@nat("core::ops::try_trait::Try::branch")
def n_branch(S, st, c, args, retty, argtys):
    v = args[0]
    T = S.P.types[argtys[0]]
    if isinstance(v, Adt) and T["path"].startswith("core::result"):
        if v.var == OK: return [(Adt(retty, 0, [v.f[0]]), st)]
        return [(Adt(retty, 1, [Adt(S.P.types[retty]["args"][0], ERR, [v.f[0]])]), st)]
    if isinstance(v, Adt) and T["path"].startswith("core::option"):
        if v.var == SOME: return [(Adt(retty, 0, [v.f[0]]), st)]
        return [(Adt(retty, 1, [Adt(S.P.types[retty]["args"][0], NONE, [])]), st)]
    return None
@method
@pat(r"^core::panicking::|^std::rt::(begin_)?panic|core::option::(unwrap|expect)_failed|core::result::unwrap_failed|slice_index_fail|::panic_(fmt|display|explicit)|slice_(start|end)_index|core::str::slice_error_fail|alloc::raw_vec::(capacity_overflow|handle_error)")
def n_panic(S, st, c, args, retty, argtys):
    p = c["path"]
    if p.endswith("unimplemented_default_msg") or "const_fmt" in p: return [(Op("panicmsg"), st)]
    S.I.panic(st, "explicit " + p.split("::")[-1])
    return []
@method
@nat("core::hint::must_use", "core::convert::identity", "core::hint::black_box", "core::mem::drop", "core::mem::forget")
def n_ident(S, st, c, args, retty, argtys):
    return [(args[0] if not c["path"].endswith(("drop", "forget")) else UNIT, st)]
@method
@nat("core::mem::drop", "core::mem::forget", "core::hint::assert_unchecked")
def n_unit(S, st, c, args, retty, argtys): return [(UNIT, st)]
@method
@nat("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def n_fncall(S, st, c, args, retty, argtys):
    t = args[1]
    if not isinstance(t, Tup): raise Unsupported("closure arguments")
    return S.I.call_value(st, args[0], list(t.f), retty, argtys)
@method
@nat("core::mem::take")
def n_take(S, st, c, args, retty, argtys):
    r = S.mref(st, args[0]); old = S.I.read(st, r.cell, r.proj)
    T = S.P.types[retty]
    if S.P.is_seq(retty): new = Seq(())
    elif T["k"] == "int": new = ZERO
    elif T["k"] == "bool": new = FALSE
    elif T.get("path", "").startswith("core::option"): new = Adt(retty, NONE, [])
    else: return None
    S.I.store(st, r.cell, r.proj, new)
    return [(old, st)]
@method
@nat("core::mem::replace", "core::option::Option::<T>::replace")
def n_replace(S, st, c, args, retty, argtys):
    r = S.mref(st, args[0]); old = S.I.read(st, r.cell, r.proj)
    new = args[1]
    if c["path"].startswith("core::option"): new = Adt(retty, SOME, [new])
    S.I.store(st, r.cell, r.proj, new)
    return [(old, st)]
@method
@nat("core::mem::swap")
def n_swap(S, st, c, args, retty, argtys):
    a, b = S.mref(st, args[0]), S.mref(st, args[1])
    x, y = S.I.read(st, a.cell, a.proj), S.I.read(st, b.cell, b.proj)
    S.I.store(st, a.cell, a.proj, y); S.I.store(st, b.cell, b.proj, x)
    return [(UNIT, st)]
@method
@nat("core::intrinsics::discriminant_value", "core::mem::discriminant")
def n_discr(S, st, c, args, retty, argtys):
    return [(S.I.discr(S.deref(st, args[0])), st)]
@method
@nat("alloc::boxed::Box::<T>::new")
def n_box(S, st, c, args, retty, argtys): return [(Op("box", args[0]), st)]
@method
@nat("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec", "alloc::string::String::as_bytes",
     "alloc::string::String::into_bytes", "alloc::vec::Vec::<T, A>::as_slice", "alloc::string::String::as_str", "alloc::str::<impl str>::to_owned",
     "core::str::<impl str>::as_bytes", "core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "generic_array::GenericArray::as_slice",
     "core::array::<impl [T; N]>::as_slice", "alloc::string::String::into_boxed_str", "alloc::vec::Vec::<T, A>::into_boxed_slice", "alloc::str::<impl str>::into_string",
     "core::clone::impls::<impl core::clone::Clone for &T>::clone", "core::slice::<impl [T]>::as_ref", "core::str::<impl str>::as_str", "alloc::boxed::box_new", "generic_array::GenericArray::<T, N>::as_slice")
def n_clone(S, st, c, args, retty, argtys):
    p = c["path"]
    if c.get("inst") is not None and p == "core::clone::Clone::clone":
        f = S.P.fns[c["inst"]]
        if f["local"]: return None
    if c.get("inst") is not None and p == "core::ops::deref::Deref::deref" and S.P.fns[c["inst"]]["local"]: return None
    if c.get("inst") is not None and p == "core::convert::AsRef::as_ref" and S.P.fns[c["inst"]]["local"]: return None
    T = S.P.types[retty]
    v = args[0]
    if T["k"] == "ref":
        if p in ("core::clone::Clone::clone",) and isinstance(v, RefV): return [(v.v if isinstance(v.v, (RefV, MutRef)) else v, st)]
        return [(RefV(S.deref(st, v)), st)]
    return [(S.deref(st, v), st)]
@method
@nat("core::ops::deref::DerefMut::deref_mut", "core::convert::AsMut::as_mut", "alloc::vec::Vec::<T, A>::as_mut_slice", "core::borrow::BorrowMut::borrow_mut", "core::slice::<impl [T]>::as_mut")
def n_derefmut(S, st, c, args, retty, argtys):
    if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
    return [(S.mref(st, args[0]), st)]
@method
@nat("core::default::Default::default", "alloc::vec::Vec::<T>::new", "alloc::string::String::new", "std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::set::HashSet::<T>::new")
def n_default(S, st, c, args, retty, argtys):
    T = S.P.types[retty]; k = T["k"]
    if k == "adt" and ("HashMap" in T["path"] or "HashSet" in T["path"]): return [(Op("map", None, ()), st)]
    if S.P.is_seq(retty) and k != "array": return [(Seq(()), st)]
    if k == "array": return [(mkseq([("rep", ZERO, K(T["n"]))]), st)]
    if k == "int": return [(ZERO, st)]
    if k == "bool": return [(FALSE, st)]
    if k == "adt" and T["path"].startswith("core::option"): return [(Adt(retty, NONE, []), st)]
    return None
@method
@nat("core::convert::From::from", "core::convert::Into::into", "core::convert::TryFrom::try_from", "core::convert::TryInto::try_into", "core::str::traits::FromStr::from_str")
def n_from(S, st, c, args, retty, argtys):
    p = c["path"]
    v = args[0]
    T = S.P.types[retty]; F = S.P.types[argtys[0]]
    if p.endswith("from_str"):
        if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
        return n_parse(S, st, c, args, retty, argtys)
    if "try_" in p.split("::")[-1]:
        ok = T["args"][0]
        OT = S.P.types[ok]
        if OT["k"] == "int" and isinstance(v, Lin):
            lo, hi = S.P.intrange(ok)
            return S.in_range(st, v, lo, hi, lambda s: S.mkres(retty, True, v), lambda s: S.mkres(retty, False, Op("TryFromIntError")))
        if OT["k"] in ("array",) or (OT["k"] == "ref" and S.P.types[OT["t"]]["k"] == "array"):
            n = OT["n"] if OT["k"] == "array" else S.P.types[OT["t"]]["n"]
            q = S.seq(st, v)
            r = []
            a, b = st.split(eq(slen(q), K(n)))
            if a is not None: r.append((S.mkres(retty, True, q if OT["k"] == "array" else RefV(q)), a))
            if b is not None: r.append((S.mkres(retty, False, Op("TryFromSliceError")), b))
            return r
        return None
    if c.get("inst") is not None:
        f = S.P.fns[c["inst"]]
        if f["local"]: return None
    if T["k"] == "int":
        if isinstance(v, Bo): return [(S.I.bool_int(v), st)]
        if isinstance(v, Lin): return [(v, st)]
    if T["k"] == "char" and isinstance(v, Lin): return [(v, st)]
    if S.P.is_seq(retty):
        if isinstance(v, Lin): return [(S.char_seq(v), st)]
        w = S.deref(st, v)
        if isinstance(w, Seq): return [(w, st)]
    if T.get("path") == "core::io::error::Error":
        return [(Op("ioerr", v), st)]
    if T["k"] == "adt" and T["path"].endswith("Cow"): return [(v, st)]
    if retty == argtys[0]: return [(v, st)]
    if c.get("inst") is not None: return None
    raise Unsupported("conversion %s -> %s" % (F.get("s"), T.get("s")))
@method
def in_range(S, st, v, lo, hi, ok, bad):
    r = []
    cur = [st]
    for cond in (ge(v, K(lo)), ge(K(hi), v)):
        nx = []
        for s in cur:
            a, b = s.split(cond)
            if b is not None: r.append((bad(b), b))
            if a is not None: nx.append(a)
        cur = nx
    for s in cur: r.append((ok(s), s))
    return r
@method
def char_seq(S, v):
    if v.const is not None: return const_seq(chr(v.const).encode("utf-8"))
    lo, hi = rng(v)
    if hi < 128: return els([v])
    return Seq((("app", "utf8char", (v,), A(atom("lenof", ("utf8char", v), 1, 4)), "u8"),))

# ======================= comparison =======================
@method
@nat("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def n_eq(S, st, c, args, retty, argtys):
    if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
    neg_ = c["path"].endswith("::ne")
    a, b = S.deref(st, args[0]), S.deref(st, args[1])
    r = S.equal(st, a, b)
    if r is None:
        if c.get("inst") is not None: return None
        raise Unsupported("equality of %s and %s" % (show(a)[:50], show(b)[:50]))
    if r is not True and r is not False: r = S.known_eq(st, r)
    return [(mkbo(neg(r) if neg_ else r), st)]
@method
def known_eq(S, st, cnd):
    """use facts such as x == "BEGIN" to refute x == "COMMIT" """
    cnd = st.ctx.normc(cnd)
    if isinstance(cnd, tuple) and cnd[0] == "b" and cnd[1] == "seqeq":
        x, y = cnd[2]
        cy = seqs.const_bytes(y)
        if cy is not None:
            if st.ctx.decide(eq(slen(x), K(len(cy)))) is False: return False
            for (n, ar), v in st.ctx.bools.items():
                if n == "seqeq" and v and ar[0] == x and seqs.const_bytes(ar[1]) not in (None, cy): return False
    return cnd
@method
def equal(S, st, a, b):
    """condition under which two values are equal; None if not expressible"""
    if a == b and not (isinstance(a, Op) and a.n == "float"): return True
    if isinstance(a, Lin) and isinstance(b, Lin): return eq(a, b)
    if isinstance(a, Seq) and isinstance(b, Seq): return seqeq_cond(st.ctx.norm(a), st.ctx.norm(b))
    if isinstance(a, Bo) and isinstance(b, Bo): return S.I.boolop(st, "Eq", a, b).c
    if isinstance(a, (Tup, Adt)) and isinstance(b, (Tup, Adt)) and type(a) is type(b):
        if isinstance(a, Adt) and a.var != b.var: return False
        if len(a.f) != len(b.f): return None
        cs = []
        for x, y in zip(a.f, b.f):
            x, y = S.deref(st, x), S.deref(st, y)
            r = S.equal(st, x, y)
            if r is None: return None
            if r is False: return False
            if r is not True: cs.append(r)
        if not cs: return True
        r = cs[-1]
        for k in reversed(cs[:-1]): r = ("b", "and", (k, r))
        return r
    if isinstance(a, Op) and isinstance(b, Op):
        if a.n == b.n == "dur": return eq(a.a[0], b.a[0])
        if a.n == b.n == "errkind": return B("eq", *sorted((a, b), key=repr))
        return B("eq", *sorted((a, b), key=repr))
    if isinstance(a, Adt) and isinstance(b, SymAdt): a, b = b, a
    if isinstance(a, SymAdt) and isinstance(b, (Adt, SymAdt)) and a.ty == b.ty and not any(v["fields"] for v in S.P.variants(a.ty)):
        # variants without content
        return eq(S.I.discr(a), S.I.discr(b))
    return None
@method
@nat("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def n_ord(S, st, c, args, retty, argtys):
    a, b = S.deref(st, args[0]), S.deref(st, args[1])
    f = {"lt": lt, "le": le, "gt": gt, "ge": ge}[c["path"].split("::")[-1]]
    if isinstance(a, Lin) and isinstance(b, Lin): return [(mkbo(f(a, b)), st)]
    if isinstance(a, Op) and isinstance(b, Op) and a.n == b.n == "dur": return [(mkbo(f(a.a[0], b.a[0])), st)]
    if isinstance(a, Seq) and isinstance(b, Seq):
        return [(Bo(B(c["path"].split("::")[-1], a, b)), st)]
    return None
@method
@nat("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def n_cmp(S, st, c, args, retty, argtys):
    a, b = S.deref(st, args[0]), S.deref(st, args[1])
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return None
    r = []
    ot = retty if not c["path"].endswith("partial_cmp") else S.P.types[retty]["args"][0]
    def mk(i):
        v = Adt(ot, i, [])
        return v if ot == retty else S.some(retty, v)
    l, nl = st.split(lt(a, b))
    if l is not None: r.append((mk(0), l))
    if nl is not None:
        e, g = nl.split(eq(a, b))
        if e is not None: r.append((mk(1), e))
        if g is not None: r.append((mk(2), g))
    return r
@method
@nat("core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max")
def n_minmax(S, st, c, args, retty, argtys):
    a, b = args[0], args[1]
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return None
    mn = c["path"].endswith("min")
    r = []
    l, g = st.split(le(a, b))
    if l is not None: r.append((a if mn else b, l))
    if g is not None: r.append((b if mn else a, g))
    return r
@method
@nat("core::cmp::Ord::clamp")
def n_clamp(S, st, c, args, retty, argtys):
    v, lo, hi = args
    r = []
    a, rest = st.split(lt(v, lo))
    if a is not None: r.append((lo, a))
    if rest is not None:
        b, d = rest.split(gt(v, hi))
        if b is not None: r.append((hi, b))
        if d is not None: r.append((v, d))
    return r

# ======================= integers =======================
NUM = r"^core::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$"
@method
@pat(NUM)
def n_num(S, st, c, args, retty, argtys):
    m = re.match(NUM, c["path"]); op = m.group(2); ty = m.group(1)
    tid = S.P.byname[ty] if ty in S.P.byname else argtys[0]
    lo, hi = S.P.intrange(tid)
    bits = (hi - lo + 1).bit_length() - 1
    I = S.I
    def math(kind, s):
        a = args[0]; b = args[1]
        if kind in ("add", "sub", "mul"): return [(I.arith(s, kind.capitalize(), a, b), s)]
        if kind in ("div", "rem", "rem_euclid", "div_euclid"):
            return [(I.divrem(s, "Div" if kind.startswith("div") else "Rem", a, b, tid), s)]
        if kind == "pow": return S.power(s, a, b)
        raise Unsupported("integer operation " + op)
    for pre in ("wrapping_", "checked_", "saturating_", "overflowing_", "unchecked_", "strict_"):
        if op.startswith(pre):
            kind = op[len(pre):]
            if kind in ("neg",):
                rs = [(scale(args[0], -1), st)]
            elif kind in ("shl", "shr"):
                return [(I.shift(st, "Shl" if kind == "shl" else "Shr", args[0], args[1], tid), st)] if pre == "wrapping_" else S.unsupported(op)
            elif kind.endswith("_signed") or kind.endswith("_unsigned"):
                rs = math(kind.split("_")[0], st)
            elif kind in ("div", "rem", "rem_euclid", "div_euclid") and pre == "checked_":
                z, nz = st.split(eq(args[1]))
                r = []
                if z is not None: r.append((S.none(retty), z))
                if nz is not None: r += [(S.some(retty, v), s) for v, s in math(kind, nz)]
                return r
            else: rs = math(kind, st)
            out = []
            for v, s in rs:
                if pre == "wrapping_": out.append((I.wrapc(s, v, tid), s))
                elif pre == "unchecked_": out.append((v, s))
                elif pre == "checked_": out += S.in_range(s, v, lo, hi, lambda q: S.some(retty, v), lambda q: S.none(retty))
                elif pre == "saturating_":
                    a, rest = s.split(lt(v, K(lo)))
                    if a is not None: out.append((K(lo), a))
                    if rest is not None:
                        b, d = rest.split(gt(v, K(hi)))
                        if b is not None: out.append((K(hi), b))
                        if d is not None: out.append((v, d))
                elif pre == "overflowing_":
                    out += S.in_range(s, v, lo, hi, lambda q: Tup((v, FALSE)), lambda q: Tup((I.wrap(v, tid), TRUE)))
                else: raise Unsupported(op)
            return out
    if op == "pow":
        out = []
        for v, s in S.power(st, args[0], args[1]):
            for w, s2 in S.in_range(s, v, lo, hi, lambda q: v, lambda q: None):
                if w is None: I.panic(s2, "Overflow(Pow)")
                else: out.append((w, s2))
        return out
    if op in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        bs = seqs.byte_list(S.seq(st, args[0]), bits // 8)
        v = bytes_int(bs, "be" if "_be_" in op else "le")
        return [(v if lo == 0 else signed(v, bits), st)]
    if op in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        return [(S.int_bytes(args[0], bits // 8, "be" if "_be_" in op else "le"), st)]
    if op in ("swap_bytes", "to_be", "to_le", "from_be", "from_le"):
        if op in ("to_le", "from_le"): return [(args[0], st)]
        bs = seqs.byte_list(S.int_bytes(args[0], bits // 8, "le"), bits // 8)
        return [(bytes_int(bs, "be"), st)]
    if op == "abs_diff":
        a, b = st.split(ge(args[0], args[1])); r = []
        if a is not None: r.append((sub(args[0], args[1]), a))
        if b is not None: r.append((sub(args[1], args[0]), b))
        return r
    if op in ("abs", "unsigned_abs"):
        a, b = st.split(ge(args[0])); r = []
        if a is not None: r.append((args[0], a))
        if b is not None: r.append((scale(args[0], -1), b))
        return r
    if op == "is_negative": return [(mkbo(lt(args[0], ZERO)), st)]
    if op == "is_positive": return [(mkbo(gt(args[0], ZERO)), st)]
    if op == "signum":
        r = []
        a, b = st.split(gt(args[0], ZERO))
        if a is not None: r.append((ONE, a))
        if b is not None:
            z, n = b.split(eq(args[0]))
            if z is not None: r.append((ZERO, z))
            if n is not None: r.append((K(-1), n))
        return r
    if op == "div_ceil":
        b = st.ctx.norm(args[1]).const
        if b: return [(fdiv(add(args[0], K(b - 1)), b), st)]
    if op in ("rem_euclid", "div_euclid"): return math(op, st)
    if op == "is_power_of_two" and args[0].const is not None: return [(mkbo(is_pow2(args[0].c)), st)]
    if op in ("count_ones",):
        e = expand_bits(args[0])
        if all(a.lo == 0 and a.hi == 1 for a, k in e.t): return [(Lin(bin(e.c).count("1"), tuple((a, 1) for a, k in e.t)), st)]
    if op.startswith("is_ascii") or op in ("eq_ignore_ascii_case", "to_ascii_lowercase", "to_ascii_uppercase"):
        if c.get("inst") is not None: return None
        return [(Bo(B(op, S.deref(st, args[0]))), st)] if op.startswith("is") else [(A(atom("app", (op, (S.deref(st, args[0]),)), 0, 255)), st)]
    if op in ("from_str_radix",): return n_parse(S, st, c, args, retty, argtys)
    if c.get("inst") is not None: return None
    raise Unsupported("integer method " + op)
@method
def unsupported(S, w): raise Unsupported(w)
@method
def power(S, st, a, b):
    b = st.ctx.norm(b)
    if b.const is not None:
        r = ONE
        for _ in range(b.const): r = mul(r, a)
        return [(r, st)]
    lo, hi = rng(b, st.ctx.iv)
    out = []
    if hi != INF and hi - lo <= 70:
        cur = st
        for n in range(int(lo), int(hi) + 1):
            if cur is None: break
            t, f = cur.split(eq(b, K(n)))
            if t is not None:
                r = ONE
                for _ in range(n): r = mul(r, a)
                out.append((r, t if t is not cur else t.fork()))
            cur = f
        return out
    h2 = INF
    return [(A(atom("pow", (a, b), 0, INF)), st)]
def pow_rebuild(a, args):
    x, n = args
    if n.const is not None and n.const <= 128:
        r = ONE
        for _ in range(n.const): r = mul(r, x)
        return r
REBUILD["pow"] = pow_rebuild
@method
def int_bytes(S, v, n, en):
    """the n bytes of an integer (two's complement)"""
    if rng(v)[0] < 0: v = fmod(v, 1 << (8 * n))
    bs = [fmod(fdiv(v, 1 << (8 * i)), 256) for i in range(n)]
    if en == "be": bs.reverse()
    return els(bs)

# ======================= vectors / strings =======================
@method
@nat("alloc::vec::Vec::<T>::with_capacity", "alloc::string::String::with_capacity", "alloc::vec::Vec::<T, A>::reserve", "alloc::string::String::reserve", "alloc::vec::Vec::<T, A>::reserve_exact",
     "std::collections::hash::map::HashMap::<K, V>::with_capacity", "std::collections::hash::set::HashSet::<T>::with_capacity", "std::collections::hash::map::HashMap::<K, V, S, A>::reserve")
def n_withcap(S, st, c, args, retty, argtys):
    S.alloc(st, args[-1], c["path"])
    if "reserve" in c["path"]: return [(UNIT, st)]
    return n_default(S, st, c, [], retty, argtys)
@method
def alloc(S, st, n, what, esz=1):
    I = S.I
    if I.quiet: return
    I.allocs.append((I.site(), what.split("::")[-1], n, st.ctx, I.cursp))
@method
@nat("alloc::vec::from_elem", "alloc::slice::<impl [T]>::repeat", "alloc::str::<impl str>::repeat", "core::iter::sources::repeat_n::repeat_n")
def n_fromelem(S, st, c, args, retty, argtys):
    v, n = args
    S.alloc(st, n, c["path"])
    if c["path"].endswith("::repeat"):
        q = S.seq(st, v)
        if slen(q).const == 1: return [(mkseq([("rep", index(q, ZERO, st.ctx), n)]), st)]
        if n.const is not None and n.const < 40: return [(cat(*([q] * n.const)), st)]
        return [(Seq((("app", "repeat", (q, n), mul(slen(q), n), "u8"),)), st)]
    q = mkseq([("rep", v, n)])
    if c["path"].endswith("repeat_n"): return [(Op("Iter", "val", q, ZERO, n), st)]
    return [(q, st)]
@method
@pat(r"(alloc::vec::Vec::<T, A>|core::slice::<impl \[T\]>|core::str::<impl str>|alloc::string::String|core::array::<impl \[T; N\]>|core::bstr.*)::(len|is_empty|capacity)$")
def n_len(S, st, c, args, retty, argtys):
    n = slen(S.seq(st, args[0]))
    if c["path"].endswith("is_empty"): return [(mkbo(eq(n)), st)]
    if c["path"].endswith("capacity"): return [(A(atom("app", ("capacity", (n,)), 0, (1 << 63) - 1)), st)]
    return [(n, st)]
@method
@nat("alloc::vec::Vec::<T, A>::push", "alloc::string::String::push")
def n_push(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0])
    if "String" in c["path"]: S.put(st, args[0], cat(q, S.char_seq(args[1])))
    else: S.put(st, args[0], push(q, args[1]))
    return [(UNIT, st)]
@method
@nat("alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::string::String::push_str", "core::ops::arith::AddAssign::add_assign", "alloc::vec::Vec::<T, A>::append")
def n_append(S, st, c, args, retty, argtys):
    if c["path"].endswith("add_assign"):
        a = S.deref(st, args[0])
        if isinstance(a, Lin):
            r = add(a, S.deref(st, args[1]))
            return S.store_checked(st, args[0], r, argtys[0])
    q = S.seq(st, args[0]); S.put(st, args[0], cat(q, S.seq(st, args[1])))
    if c["path"].endswith("::append"): S.put(st, args[1], Seq(()))
    return [(UNIT, st)]
@method
def store_checked(S, st, ref, r, refty):
    t = S.P.types[refty]["t"]; lo, hi = S.P.intrange(t); out = []
    for v, s in S.in_range(st, r, lo, hi, lambda s: r, lambda s: None):
        if v is None: S.I.panic(s, "Overflow")
        else: S.put(s, ref, v); out.append((UNIT, s))
    return out
@method
@pat(r"^core::ops::(arith|bit)::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)(Assign)?::\w+$")
def n_arith(S, st, c, args, retty, argtys):
    m = re.match(r"^core::ops::(?:arith|bit)::(\w+?)(Assign)?::\w+$", c["path"])
    op = m.group(1)
    if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
    a, b = S.deref(st, args[0]), S.deref(st, args[1])
    if isinstance(a, Op) and a.n == "dur":
        if op == "Add": return [(Op("dur", add(a.a[0], b.a[0])), st)]
        if op == "Mul": return [(Op("dur", mul(a.a[0], b)), st)]
        if op == "Sub": return [(Op("dur", sub(a.a[0], b.a[0])), st)]
        if op == "Div": return [(Op("dur", S.I.divrem(st, "Div", a.a[0], b, S.P.byname["u64"])), st)]
    if isinstance(a, Seq): 
        if m.group(2): S.put(st, args[0], cat(a, S.seq(st, b))); return [(UNIT, st)]
        return [(cat(a, S.seq(st, b)), st)]
    if isinstance(a, Lin) and isinstance(b, Lin):
        ty = retty if not m.group(2) else S.P.types[argtys[0]]["t"]
        out = []
        if op in ("Add", "Sub", "Mul"):
            r = S.I.arith(st, op, a, b); lo, hi = S.P.intrange(ty)
            rs = S.in_range(st, r, lo, hi, lambda s: r, lambda s: None)
        elif op in ("Div", "Rem"):
            z, nz = st.split(eq(b)); rs = []
            if z is not None: rs.append((None, z))
            if nz is not None: rs.append((S.I.divrem(nz, op, a, b, ty), nz))
        else:
            rs = [(S.I.binop(st, None, op, a, b, ty, ty), st)]
        for v, s in rs:
            if v is None: S.I.panic(s, "Overflow(%s)" % op); continue
            if m.group(2): S.put(s, args[0], v); out.append((UNIT, s))
            else: out.append((v, s))
        return out
    if isinstance(a, Bo) and isinstance(b, Bo):
        v = S.I.boolop(st, op, a, b)
        if m.group(2): S.put(st, args[0], v); return [(UNIT, st)]
        return [(v, st)]
    return None
@method
@nat("core::ops::bit::Not::not", "core::ops::arith::Neg::neg")
def n_not(S, st, c, args, retty, argtys):
    a = S.deref(st, args[0])
    if isinstance(a, Bo): return [(mkbo(neg(a.c)), st)]
    return None
@method
@nat("alloc::vec::Vec::<T, A>::pop", "alloc::string::String::pop")
def n_pop(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); n = slen(q); r = []
    e, ne_ = st.split(eq(n))
    if e is not None: r.append((S.none(retty), e))
    if ne_ is not None:
        v = index(q, sub(n, ONE), ne_.ctx, S.P.types[retty]["args"][0])
        S.put(ne_, args[0], slice_(q, ZERO, sub(n, ONE), ne_.ctx))
        r.append((S.some(retty, v), ne_))
    return r
@method
@nat("alloc::vec::Vec::<T, A>::insert", "alloc::string::String::insert", "alloc::string::String::insert_str")
def n_insert(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); n = slen(q)
    ok, bad = st.split(ge(n, args[1]))
    if bad is not None: S.I.panic(bad, "insert index")
    if ok is None: return []
    if "String" in c["path"]:
        piece = S.char_seq(args[2]) if isinstance(args[2], Lin) else S.seq(ok, args[2])
        if not (args[1].const == 0 or S.is_ascii(q)):
            S.I.panic(ok, "char boundary")
        S.put(ok, args[0], cat(slice_(q, ZERO, args[1], ok.ctx), piece, slice_(q, args[1], sub(n, args[1]), ok.ctx)))
    else: S.put(ok, args[0], seqs.insert(q, args[1], args[2], ok.ctx))
    return [(UNIT, ok)]
@method
def at_boundary(S, st, q, x):
    """x is certainly the start of a character of text q, or its end"""
    x = st.ctx.norm(x)
    if x.const == 0 or x == st.ctx.norm(slen(q)): return True
    if any(isinstance(c, tuple) and c[0] == "b" and c[1] in ("charboundary", "isascii") and c[2] and c[2][0] == q for c in st.ctx.lits): return True
    # found by searching the text
    return len(x.t) == 1 and x.t[0][1] == 1 and x.c in (0, 1) and x.t[0][0].kind == "app" and x.t[0][0].args[0] in ("find", "rfind")
@method
def is_ascii(S, q):
    for s in q.s:
        if s[0] == "k" and all(b < 128 for b in s[1]): continue
        if s[0] == "el" and isinstance(s[1], Lin) and rng(s[1])[1] < 128: continue
        if s[0] == "app" and s[1] in ("dec", "hex", "zpad", "HEX"): continue
        return False
    return True
@method
@nat("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def n_remove(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); n = slen(q)
    ok, bad = st.split(gt(n, args[1]))
    if bad is not None: S.I.panic(bad, "remove index")
    if ok is None: return []
    v = index(q, args[1], ok.ctx, retty)
    if c["path"].endswith("swap_remove"): raise Unsupported("swap_remove")
    S.put(ok, args[0], seqs.remove(q, args[1], ok.ctx))
    return [(v, ok)]
@method
@nat("alloc::vec::Vec::<T, A>::clear", "alloc::string::String::clear")
def n_clear(S, st, c, args, retty, argtys):
    S.put(st, args[0], Seq(())); return [(UNIT, st)]
@method
@nat("alloc::vec::Vec::<T, A>::truncate", "alloc::string::String::truncate")
def n_trunc(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); r = []
    a, b = st.split(gt(slen(q), args[1]))
    if a is not None: 
        if "String" in c["path"] and not S.is_ascii(q): S.I.panic(a, "char boundary")
        S.put(a, args[0], slice_(q, ZERO, args[1], a.ctx)); r.append((UNIT, a))
    if b is not None: r.append((UNIT, b))
    return r
@method
@nat("alloc::vec::Vec::<T, A>::resize")
def n_resize(S, st, c, args, retty, argtys):
    S.alloc(st, args[1], c["path"])
    q = S.seq(st, args[0]); n = slen(q); r = []
    a, b = st.split(gt(n, args[1]))
    if a is not None: S.put(a, args[0], slice_(q, ZERO, args[1], a.ctx)); r.append((UNIT, a))
    if b is not None: S.put(b, args[0], cat(q, mkseq([("rep", args[2], sub(args[1], n))]))); r.append((UNIT, b))
    return r
@method
@nat("core::slice::<impl [T]>::reverse")
def n_reverse(S, st, c, args, retty, argtys):
    S.put(st, args[0], seqs.reverse(S.seq(st, args[0]))); return [(UNIT, st)]
@method
@pat(r"alloc::slice::<impl \[T\]>::sort|core::slice::<impl \[T\]>::sort|core::slice::<impl \[T\]>::(dedup)$|alloc::vec::Vec::<T, A>::dedup$")
def n_sort(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0])
    m = c["path"].split("::")[-1]
    if slen(q).const in (0, 1): return [(UNIT, st)]
    rs = S.sort_known(st, q, m, args)
    if rs is not None:
        out = []
        for xs, s in rs:
            s = s.fork(); S.put(s, args[0], els(xs)); out.append((UNIT, s))
        return out
    key = ()
    if len(args) > 1: key = (args[1],)
    ety = q.s[0][4] if q.s and q.s[0][0] in ("app", "in") else None
    if m.startswith("sort"): S.put(st, args[0], Seq((("app", m.replace("_unstable", ""), (q,) + key, slen(q), S.ety_of(argtys[0])),)))
    else: raise Unsupported(m)
    return [(UNIT, st)]
@method
def sort_known(S, st, q, m, args):
    """a short sequence of known elements, put in order by every sequence of comparisons"""
    if not all(s[0] == "el" for s in q.s) and seqs.const_bytes(q) is None or slen(q).const is None or slen(q).const > 6 or not m.startswith("sort"): return None
    xs = [index(q, K(i), st.ctx) for i in range(slen(q).const)]
    cur = [([], st)]
    if m.endswith("_by"): keyed = None
    elif "_by" in m: keyed = True
    else: keyed = False
    for x in xs:
        ks = [(x, st)] if not keyed else None
        nx = []
        for ys, s in cur:
            for k, s1 in ([(x, s)] if not keyed else S.I.call_value(s, args[1], [RefV(x)])):
                # after every element that is not greater, from the right
                pend = [(len(ys), s1)]
                while pend:
                    i, s2 = pend.pop()
                    if i == 0: nx.append((ys[:0] + [(k, x)] + ys, s2)); continue
                    if keyed is None:
                        for o, s3 in S.I.call_value(s2, args[1], [RefV(ys[i - 1][1]), RefV(x)]):
                            if not isinstance(o, Adt): return None
                            if o.var == 2: pend.append((i - 1, s3))
                            else: nx.append((ys[:i] + [(k, x)] + ys[i:], s3))
                        continue
                    r = S.less(s2, S.deref(s2, k), S.deref(s2, ys[i - 1][0]))
                    if r is None: return None
                    for t in r[0]: pend.append((i - 1, t))
                    for f in r[1]: nx.append((ys[:i] + [(k, x)] + ys[i:], f))
        cur = nx
    return [([x for _, x in ys], s) for ys, s in cur]
@method
def less(S, st, a, b):
    """(states in which a < b, states in which not), or None"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        t, f = st.split(gt(b, a)); return ([t] if t is not None else []), ([f] if f is not None else [])
    x, y = (a.f, b.f) if isinstance(a, Tup) and isinstance(b, Tup) and len(a.f) == len(b.f) else (None, None)
    if x is None and isinstance(a, Seq) and isinstance(b, Seq):
        p, q = seqs.const_bytes(a), seqs.const_bytes(b)
        if p is not None and q is not None: return ([st], []) if p < q else ([], [st])
        x, y = S.items(a), S.items(b)
        if x is None or y is None: return None
        for i in range(min(len(x), len(y))):
            if x[i] == y[i] and isinstance(x[i], Lin): continue
            if isinstance(x[i], Lin) and isinstance(y[i], Lin) and x[i].const is not None and y[i].const is not None: return ([st], []) if x[i].const < y[i].const else ([], [st])
            return None
        return ([st], []) if len(x) < len(y) else ([], [st])
    if x is None: return None
    ts, fs, cur = [], [], [st]
    for u, v in zip(x, y):
        nx = []
        for s in cur:
            r = S.less(s, S.deref(s, u), S.deref(s, v))
            if r is None: return None
            ts += r[0]
            for f in r[1]:
                r2 = S.less(f, S.deref(f, v), S.deref(f, u))
                if r2 is None: return None
                fs += r2[0]; nx += r2[1]
        cur = nx
    return ts, fs + cur
@method
def ety_of(S, refty):
    T = S.P.types[refty]
    t = T["t"] if T["k"] == "ref" else refty
    return S.P.ety(S.P.elemty(t))
@method
@nat("core::slice::<impl [T]>::fill")
def n_fill(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); S.put(st, args[0], mkseq([("rep", args[1], slen(q))])); return [(UNIT, st)]
@method
@nat("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def n_copyfrom(S, st, c, args, retty, argtys):
    q, r = S.seq(st, args[0]), S.seq(st, args[1])
    ok, bad = st.split(eq(slen(q), slen(r)))
    if bad is not None: S.I.panic(bad, "copy_from_slice length")
    if ok is None: return []
    S.put(ok, args[0], r); return [(UNIT, ok)]
@method
@nat("core::slice::<impl [T]>::swap")
def n_sswap(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); n = slen(q); cur = st
    for i in args[1:]:
        ok, bad = cur.split(gt(n, i))
        if bad is not None: S.I.panic(bad, "swap index")
        if ok is None: return []
        cur = ok
    x, y = index(q, args[1], cur.ctx), index(q, args[2], cur.ctx)
    S.put(cur, args[0], seqs.update(seqs.update(q, args[1], y, cur.ctx), args[2], x, cur.ctx))
    return [(UNIT, cur)]
@method
@nat("alloc::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join", "alloc::slice::Join::join", "alloc::slice::Concat::concat")
def n_concat(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0])
    sep = S.seq(st, args[1]) if len(args) > 1 else None
    if all(s[0] == "el" for s in q.s):
        parts = [S.seq(st, s[1]) for s in q.s]
        if sep is not None:
            o = []
            for i, x in enumerate(parts):
                if i: o.append(sep)
                o.append(x)
            parts = o
        return [(cat(*parts), st)]
    return [(Seq((("app", "concat", (q, sep) if sep is not None else (q,), A(atom("lenof", ("concat", q, sep if sep is not None else ()), 0, (1 << 63) - 1)), "u8"),)), st)]
@method
@nat("core::slice::<impl [T]>::contains")
def n_contains(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); x = S.deref(st, args[1])
    if q.s and all(s[0] == "el" for s in q.s) or seqs.const_bytes(q) is not None:
        n = slen(q).const; cs = []
        for i in range(n):
            e = S.equal(st, S.deref(st, index(q, K(i), st.ctx)), x)
            if e is True: return [(TRUE, st)]
            if e is not False: cs.append(e)
        r = False
        for k in reversed(cs): r = k if r is False else ("nb", "and", (neg(k), neg(r)))
        return [(mkbo(r), st)]
    return [(Bo(B("contains", q, x)), st)]
@method
@pat(r"core::slice::<impl \[T\]>::(first|last|get|get_mut|first_mut|last_mut|split_first|split_last|split_at|split_at_checked|split_at_mut|starts_with|ends_with|strip_prefix|get_unchecked)$|core::str::<impl str>::(get|split_at|is_char_boundary)$")
def n_slice(S, st, c, args, retty, argtys):
    m = c["path"].split("::")[-1]
    ref = args[0]; q = S.seq(st, ref); n = slen(q); out = []
    mut = m.endswith("_mut")
    def el(s, i):
        if mut:
            r = S.mref(s, ref); return MutRef(r.cell, r.proj + (("ix", i, S.ety_of(argtys[0])),))
        return RefV(index(q, i, s.ctx, S.ety_of(argtys[0])))
    def sl(s, a, k):
        if mut:
            r = S.mref(s, ref); return MutRef(r.cell, r.proj + (("sub", a, k),))
        return RefV(slice_(q, a, k, s.ctx))
    b = m.replace("_mut", "")
    isstr = "impl str" in c["path"]
    if isstr and not S.is_ascii(q) and b == "split_at": raise Unsupported("str::split_at")
    if b in ("first", "last", "split_first", "split_last"):
        e, ne_ = st.split(eq(n))
        if e is not None: out.append((S.none(retty), e))
        if ne_ is not None:
            i = ZERO if b.endswith("first") else sub(n, ONE)
            v = el(ne_, i)
            if b.startswith("split"): v = Tup((v, sl(ne_, ONE, sub(n, ONE)) if b.endswith("first") else sl(ne_, ZERO, sub(n, ONE))))
            out.append((S.some(retty, v), ne_))
        return out
    if b in ("get", "get_unchecked"):
        i = args[1]
        if isinstance(i, Lin):
            ok, bad = st.split(gt(n, i))
            if bad is not None: out.append((S.none(retty), bad))
            if ok is not None: out.append((S.some(retty, el(ok, i)), ok))
            return out
        for kind, a, k, s in S.range_split(st, i, argtys[1], n):
            if kind != "ok": out.append((S.none(retty), s)); continue
            if isstr and not S.is_ascii(q):
                lits = B("charboundary", q, a, k)
                ok, bad = s.split(lits)
                if bad is not None: out.append((S.none(retty), bad))
                if ok is None: continue
                s = ok
            out.append((S.some(retty, sl(s, a, k)), s))
        return out
    if b in ("split_at", "split_at_checked"):
        ok, bad = st.split(ge(n, args[1]))
        if bad is not None:
            if b == "split_at": S.I.panic(bad, "split_at")
            else: out.append((S.none(retty), bad))
        if ok is not None:
            v = Tup((sl(ok, ZERO, args[1]), sl(ok, args[1], sub(n, args[1]))))
            out.append((v if b == "split_at" else S.some(retty, v), ok))
        return out
    if b in ("starts_with", "ends_with", "strip_prefix"):
        p = S.seq(st, args[1]); k = slen(p)
        ok, bad = st.split(ge(n, k))
        if bad is not None: out.append((FALSE if b != "strip_prefix" else S.none(retty), bad))
        if ok is not None:
            part = slice_(q, ZERO if b != "ends_with" else sub(n, k), k, ok.ctx)
            cnd = seqeq_cond(ok.ctx.norm(part), ok.ctx.norm(p))
            if b != "strip_prefix": out.append((mkbo(cnd), ok))
            else:
                ts, fs = S.I.split_bool(ok, cnd)
                for s in ts: out.append((S.some(retty, RefV(slice_(q, k, sub(n, k), s.ctx))), s))
                for s in fs: out.append((S.none(retty), s))
        return out
    raise Unsupported("slice method " + m)
@method
def range_split(S, st, r, rty, n):
    """split a range index against length n: [('ok',start,len,st)|('bad',..)]"""
    T = S.P.types[rty]; p = T["path"].split("::")[-1]
    r = S.deref(st, r)
    f = r.f if isinstance(r, Adt) else ()
    if isinstance(r, SymAdt): f = [S.P.field(r, i) for i in range(len(S.P.variants(r.ty)[0]["fields"]))]
    a, b = ZERO, n
    if p == "RangeFull": pass
    elif p == "Range": a, b = f[0], f[1]
    elif p == "RangeFrom": a = f[0]
    elif p == "RangeTo": b = f[0]
    elif p == "RangeToInclusive": b = add(f[0], ONE)
    elif p == "RangeInclusive": a, b = f[0], add(f[1], ONE)
    else: raise Unsupported("index by " + p)
    out = []
    ok, bad = st.split(ge(b, a))
    if bad is not None: out.append(("bad", None, None, bad))
    if ok is not None:
        ok2, bad2 = ok.split(ge(n, b))
        if bad2 is not None: out.append(("bad", None, None, bad2))
        if ok2 is not None: out.append(("ok", a, sub(b, a), ok2))
    return out
@method
@nat("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def n_index(S, st, c, args, retty, argtys):
    mut = c["path"].endswith("_mut")
    T = S.P.types[argtys[0]]
    if c.get("inst") is not None and S.P.fns[c["inst"]]["local"]: return None
    base = S.deref(st, args[0])
    if isinstance(base, Op) and base.n == "map":
        out = []
        for v, s in S.map_get(st, base, S.deref(st, args[1]), retty):
            if v is None: S.I.panic(s, "map index")
            else: out.append((RefV(v), s))
        return out
    q = S.seq(st, args[0]); n = slen(q); i = args[1]; out = []
    isstr = S.P.types[T["t"]]["k"] == "str" or S.P.types[T["t"]].get("path", "").endswith("String")
    if isinstance(i, Lin):
        ok, bad = st.split(gt(n, i))
        if bad is not None: S.I.panic(bad, "index", "%s < %s" % (show(i), show(n)))
        if ok is None: return []
        if mut:
            r = S.mref(ok, args[0]); return [(MutRef(r.cell, r.proj + (("ix", i, S.ety_of(argtys[0])),)), ok)]
        return [(RefV(index(q, i, ok.ctx, S.ety_of(argtys[0]))), ok)]
    for kind, a, k, s in S.range_split(st, i, argtys[1], n):
        if kind != "ok": S.I.panic(s, "slice index", "len %s" % show(n)); continue
        if isstr and not S.is_ascii(q) and not (S.at_boundary(s, q, a) and S.at_boundary(s, q, add(a, k))): S.I.panic(s, "char boundary", "%s..%s" % (show(a)[:60], show(add(a, k))[:60]))
        if mut:
            r = S.mref(s, args[0]); out.append((MutRef(r.cell, r.proj + (("sub", a, k),)), s))
        else: out.append((RefV(slice_(q, a, k, s.ctx)), s))
    return out
# ---- text ----
@method
@nat("alloc::string::String::from_utf8", "core::str::converts::from_utf8", "core::str::from_utf8", "core::str::<impl str>::from_utf8")
def n_utf8(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); out = []
    own = "String" in c["path"]
    ok, bad = st.split(rebuild_bool("utf8", (st.ctx.norm(q),)))
    if ok is not None: out.append((S.mkres(retty, True, q if own else RefV(q)), ok))
    if bad is not None: out.append((S.mkres(retty, False, Op("utf8err", q)), bad))
    return out
@method
@nat("alloc::string::String::from_utf8_lossy")
def n_lossy(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); out = []
    ok, bad = st.split(rebuild_bool("utf8", (st.ctx.norm(q),)))
    if ok is not None: out.append((Op("box", q), ok))
    if bad is not None: out.append((Op("box", Seq((("app", "lossy", (q,), A(atom("lenof", ("lossy", q), 0, (1 << 63) - 1)), "u8"),))), bad))
    return out
@method
@nat("alloc::borrow::Cow::<'_, B>::into_owned")
def n_owned(S, st, c, args, retty, argtys): return [(S.deref(st, args[0]), st)]
@method
@nat("core::str::<impl str>::parse")
def n_parse(S, st, c, args, retty, argtys):
    q = st.ctx.norm(S.seq(st, args[0])); t = S.P.types[retty]["args"][0]; out = []
    T = S.P.types[t]
    if T["k"] != "int":
        if S.P.is_seq(t): return [(S.mkres(retty, True, q), st)]
        if c.get("inst") is not None: return None
        raise Unsupported("parse to " + T["s"])
    lo, hi = S.P.intrange(t)
    extra = tuple(args[1:])
    b = seqs.const_bytes(q)
    if b is not None and not extra:
        try:
            s = b.decode()
            if re.fullmatch(r"[+]?\d+", s) and int(s) <= hi: return [(S.mkres(retty, True, K(int(s))), st)]
            if lo < 0 and re.fullmatch(r"-\d+", s) and int(s) >= lo: return [(S.mkres(retty, True, K(int(s))), st)]
        except UnicodeDecodeError: pass
        return [(S.mkres(retty, False, Op("parseerr", q)), st)]
    radix = args[1].const if len(args) > 1 and isinstance(args[1], Lin) else 10
    rs = S.text_int(st, q, lo, hi, radix)
    if rs is not None: return [(S.mkres(retty, v is not None, v if v is not None else Op("parseerr", q)), s) for v, s in rs]
    ok, bad = st.split(B("parses", q, T["s"], *extra))
    if ok is not None: out.append((S.mkres(retty, True, A(atom("app", ("parse", (q, T["s"]) + extra), lo, hi))), ok))
    if bad is not None: out.append((S.mkres(retty, False, Op("parseerr", q)), bad))
    return out
@method
@nat("core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end", "alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_uppercase",
     "alloc::str::<impl str>::to_ascii_lowercase", "alloc::str::<impl str>::replace", "core::str::<impl str>::trim_matches", "core::str::<impl str>::trim_end_matches", "core::str::<impl str>::trim_start_matches", "alloc::str::<impl str>::to_ascii_uppercase")
def n_strfn(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); name = c["path"].split("::")[-1]
    rs = S.text_fn(st, name, q, args)
    if rs is not None: return [(v if S.P.types[retty]["k"] != "ref" else RefV(v), s) for v, s in rs]
    rest = tuple(S.deref(st, a) if not isinstance(a, (Clos, FnDef)) else a for a in args[1:])
    rest = tuple(S.char_seq(a) if isinstance(a, Lin) else a for a in rest)
    b = seqs.const_bytes(q)
    if b is not None:
        s = b.decode()
        r = {"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip, "to_lowercase": s.lower, "to_uppercase": s.upper}.get(name)
        if r is not None:
            v = const_seq(r().encode()); return [(v if S.P.types[retty]["k"] != "ref" else RefV(v), st)]
    if b == b"": return [(Seq(()) if S.P.types[retty]["k"] != "ref" else RefV(Seq(())), st)]
    hi = (1 << 63) - 1
    v = Seq((("app", name, (q,) + rest, A(atom("lenof", (name, q) + rest, 0, hi)), "u8"),))
    return [(v if S.P.types[retty]["k"] != "ref" else RefV(v), st)]
@method
@nat("core::str::<impl str>::contains", "core::str::<impl str>::starts_with", "core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix", "core::str::<impl str>::ends_with", "core::str::<impl str>::eq_ignore_ascii_case", "core::str::<impl str>::is_ascii")
def n_strpred(S, st, c, args, retty, argtys):
    q = st.ctx.norm(S.seq(st, args[0])); name = c["path"].split("::")[-1]
    rest = tuple(S.deref(st, a) if not isinstance(a, (Clos, FnDef)) else a for a in args[1:])
    rest = tuple(S.char_seq(a) if isinstance(a, Lin) else a for a in rest)
    b = seqs.const_bytes(q); x = seqs.const_bytes(rest[0]) if rest and isinstance(rest[0], Seq) else None
    if b is not None and x is not None:
        r = {"contains": x in b, "starts_with": b.startswith(x), "ends_with": b.endswith(x), "eq_ignore_ascii_case": b.lower() == x.lower()}.get(name)
        if r is not None: return [(mkbo(r), st)]
    if b == b"" and rest and isinstance(rest[0], (Clos, FnDef)): return [(FALSE, st)]
    if name in ("starts_with", "ends_with", "strip_prefix", "strip_suffix") and rest and isinstance(rest[0], Seq):
        k = slen(rest[0]); n = slen(q); out = []; strip = name.startswith("strip"); head = name in ("starts_with", "strip_prefix")
        ok, bad = st.split(ge(n, k))
        if bad is not None: out.append((FALSE if not strip else S.none(retty), bad))
        if ok is not None:
            part = slice_(q, ZERO if head else sub(n, k), k, ok.ctx)
            cnd = seqeq_cond(ok.ctx.norm(part), ok.ctx.norm(rest[0]))
            if not strip: out.append((mkbo(cnd), ok))
            else:
                ts, fs = S.I.split_bool(ok, cnd)
                for s in ts: out.append((S.some(retty, RefV(slice_(q, k if head else ZERO, sub(n, k), s.ctx))), s))
                for s in fs: out.append((S.none(retty), s))
        return out
    if name.startswith("strip"): raise Unsupported("str::" + name)
    if name == "contains":
        rs = S.text_find(st, "find", q, args[1] if isinstance(args[1], (Clos, FnDef)) else S.deref(st, args[1]))
        if rs is not None: return [(mkbo(r[0] is not None), r[4]) for r in rs]
    if name == "is_ascii" and S.is_ascii(q): return [(TRUE, st)]
    rr = tuple(x.key[0] if isinstance(x, FnDef) else x for x in rest)
    return [(Bo(B("str_" + name, q, *rr)), st)]
@method
@pat(r"core::str::<impl str>::(split|chars|bytes|split_whitespace|lines|char_indices|rsplit|splitn|rsplitn|split_inclusive|split_terminator|split_ascii_whitespace)$")
def n_split(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); name = c["path"].split("::")[-1]
    if name == "bytes" or name == "chars" and S.items(q) is not None: return [(Op("Iter", "val", q, ZERO, slen(q)), st)]
    if name == "char_indices" and S.items(q) is not None and slen(q).const is not None:
        v = els([Tup((K(i), x)) for i, x in enumerate(S.items(q))])
        return [(Op("Iter", "val", v, ZERO, slen(v)), st)]
    if "chars" not in name and "char_" not in name:
        rs = S.text_split(st, name, q, args)
        if rs is not None: return [(Op("Iter", "val", els([RefV(x) for x in xs]), ZERO, K(len(xs))), s) for xs, s in rs]
    rest = tuple(S.deref(st, a) if not isinstance(a, (Clos, FnDef)) else a for a in args[1:])
    rest = tuple(S.char_seq(a) if isinstance(a, Lin) and name != "splitn" else a for a in rest)
    if name == "chars":
        ety = S.P.byname["char"]; b = seqs.const_bytes(q)
        if b is not None: v = els([K(ord(x)) for x in b.decode()])
        else:
            n = A(atom("lenof", ("chars", q), 0, (1 << 63) - 1))
            v = Seq((("app", "chars", (q,), n, ety),))
            for f in (ge(slen(q), n), ge(scale(n, 4), slen(q))): st = st.assume(f) or st
        return [(Op("Iter", "val", v, ZERO, slen(v)), st)]
    if name in ("split",):
        n = A(atom("lenof", (name, q) + rest, 1, (1 << 63) - 1))
        v = Seq((("app", name, (q,) + rest, n, S.P.byname["&str"]),))
        return [(Op("Iter", "val", v, ZERO, n), st)]
    if name == "splitn" and isinstance(args[1], Lin):
        n = A(atom("lenof", (name, q) + rest, 1, (1 << 63) - 1))
        v = Seq((("app", name, (q,) + rest, n, S.P.byname["&str"]),))
        return [(Op("Iter", "val", v, ZERO, n), st)]
    raise Unsupported("str::" + name)
@method
@nat("core::str::<impl str>::split_once", "core::str::<impl str>::find", "core::str::<impl str>::rfind", "core::str::<impl str>::rsplit_once")
def n_once(S, st, c, args, retty, argtys):
    q = S.seq(st, args[0]); name = c["path"].split("::")[-1]
    p = S.deref(st, args[1]) if not isinstance(args[1], (Clos, FnDef)) else args[1]
    rs = S.text_find(st, name, q, p)
    if rs is not None: return [(S.none(retty) if k is None else S.some(retty, k if name in ("find", "rfind") else Tup((RefV(a), RefV(b)))), s) for k, n, a, b, s in rs]
    p = S.char_seq(p) if isinstance(p, Lin) else p
    out = []
    ok, bad = st.split(B("str_contains", q, p))
    if bad is not None: out.append((S.none(retty), bad))
    if ok is not None:
        z = A(atom("app", (("find" if name not in ("rsplit_once", "rfind") else "rfind"), (q, p)), 0, (1 << 63) - 1))
        k = slen(p) if isinstance(p, Seq) else ONE
        ok = ok.assume(ge(slen(q), add(z, k)))
        if ok is not None:
            if name in ("find", "rfind"): v = z
            else: v = Tup((RefV(slice_(q, ZERO, z, ok.ctx)), RefV(slice_(q, add(z, k), sub(sub(slen(q), z), k), ok.ctx))))
            out.append((S.some(retty, v), ok))
    return out
