"""Cells of row images, by column type."""
from checks.rows import *
DECI = R + "decimal::parse_decimal"
DT = R + "mysql_value::"
def frac(cu, fsp):
    """fractional seconds in milliseconds"""
    n = (fsp + 1) // 2
    if n == 0: return ZERO
    return fdiv(scale(Z.be(cu, n), 100 ** (3 - n)), 1000)
def bits_(x, lo, n): return fmod(fdiv(x, 1 << lo), 1 << n)
def text_cell(cu, meta):
    n = Z.u8(cu) if Z.test(lt(meta, K(256))) else Z.le(cu, 2)
    return Z.text(cu, n)
def blob(cu, size): return Z.take(cu, Z.le(cu, size))
def bit_cell(cu, n):
    m = (n + 7) // 8; q = Z.take(cu, m)
    # most significant bit first
    return els([bit_of(index(q, K(m - 1 - i // 8), Z.ctx), i % 8) for i in reversed(range(n))])
def date(cu):
    x = Z.le(cu, 3)
    return Z.struct(DT + "Date", year=fdiv(x, 512), month=bits_(x, 5, 4), day=fmod(x, 32))
def time_old(cu):
    x = Z.le(cu, 3)
    if Z.test(ge(x, K(1 << 23))): raise SErr("negative")
    return Z.struct(DT + "Time", hour=fdiv(x, 10000), minute=fmod(fdiv(x, 100), 100), second=fmod(x, 100), millis=ZERO)
def time2(cu, fsp):
    x = Z.be(cu, 3); f = frac(cu, fsp)
    if Z.test(lt(x, K(1 << 23))): raise SErr("negative")
    return Z.struct(DT + "Time", hour=bits_(x, 12, 10), minute=bits_(x, 6, 6), second=fmod(x, 64), millis=f)
def datetime_old(cu):
    x = Z.le(cu, 8); d = lambda k: fmod(fdiv(x, 100 ** k), 100)
    return Z.struct(DT + "DateTime", year=fmod(fdiv(x, 10 ** 10), 1 << 16), month=d(4), day=d(3), hour=d(2), minute=d(1), second=d(0), millis=ZERO)
def datetime2(cu, fsp):
    x = Z.be(cu, 5); f = frac(cu, fsp); ym = bits_(x, 22, 17)
    return Z.struct(DT + "DateTime", year=fdiv(ym, 13), month=fmod(ym, 13), day=bits_(x, 17, 5), hour=bits_(x, 12, 5), minute=bits_(x, 6, 6), second=fmod(x, 64), millis=f)
def flt(cu, n): return Op("float", {4: "f32", 8: "f64"}[n], Z.le(cu, n))
ANY = None
# type code: (variant, metadata values (None: any), reader)
CELLS = {
    1: ("TinyInt", [ANY], lambda cu, m: Z.u8(cu)), 2: ("SmallInt", [ANY], lambda cu, m: Z.le(cu, 2)), 9: ("MediumInt", [ANY], lambda cu, m: Z.le(cu, 3)),
    3: ("Int", [ANY], lambda cu, m: Z.le(cu, 4)), 8: ("BigInt", [ANY], lambda cu, m: Z.le(cu, 8)),
    4: ("Float", [ANY], lambda cu, m: flt(cu, 4)), 5: ("Double", [ANY], lambda cu, m: flt(cu, 8)),
    246: ("Decimal", [ANY], lambda cu, m: decimal(cu, m)),
    254: ("String", [ANY], text_cell), 15: ("String", [ANY], text_cell), 253: ("String", [ANY], text_cell),
    16: ("Bit", [(n // 8) << 8 | n % 8 for n in range(1, 65)], lambda cu, m: bit_cell(cu, (m >> 8) * 8 + (m & 255))),
    247: ("Enum", [1, 2], lambda cu, m: Z.le(cu, m)), 248: ("Set", [1, 2, 3, 4, 8], lambda cu, m: Z.le(cu, m)),
    249: ("Blob", [1, 2, 3, 4], blob), 250: ("Blob", [1, 2, 3, 4], blob), 251: ("Blob", [1, 2, 3, 4], blob), 252: ("Blob", [1, 2, 3, 4], blob),
    255: ("Blob", [1, 2, 3, 4], blob), 245: ("Blob", [1, 2, 3, 4], blob),
    13: ("Year", [ANY], lambda cu, m: add(Z.u8(cu), K(1900))), 10: ("Date", [ANY], lambda cu, m: date(cu)),
    11: ("Time", [ANY], lambda cu, m: time_old(cu)), 12: ("DateTime", [ANY], lambda cu, m: datetime_old(cu)), 7: ("Timestamp", [ANY], lambda cu, m: scale(Z.le(cu, 4), 1000)),
    19: ("Time", list(range(7)), time2), 18: ("DateTime", list(range(7)), datetime2),
    17: ("Timestamp", list(range(7)), lambda cu, m: add(scale(Z.be(cu, 4), 1000), frac(cu, m))),
}
def decimal(cu, meta):
    if DECI in Z.I.stubs: return z_consuming("decimal", stype(), cu, meta)
    raise Unsupported("DECIMAL without its decoder")
def stype():
    for v in Z.P.variants(Z.ty(MV)):
        if v["name"] == "Decimal": return v["fields"][0][1]
def ob_cells(env):
    env.start0 = False
    stubs = dict(LEN)
    if DECI in env.P.bypath: stubs[DECI] = consuming("decimal", None)
    def one(code, meta, var, rd):
        def sp(cu, t, m):
            m = m if meta is ANY else meta
            return Z.enum(MV, var, rd(cu, m))
        a = {1: K(code)}
        if meta is not ANY: a[2] = K(meta)
        env.decode(CELL, sp, name="%s (type %d%s)" % (CELL, code, "" if meta is ANY else ", metadata %d" % meta), args=a, stubs=stubs, public=False, pos=True)
    for code, (var, metas, rd) in CELLS.items():
        for m in metas: one(code, m, var, rd)
    for code in range(256):
        if code in CELLS: continue
        def sp(cu, t, m): raise SErr("type")
        env.decode(CELL, sp, name="%s (type %d)" % (CELL, code), args={1: K(code)}, stubs=stubs, public=False)
