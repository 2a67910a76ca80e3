from checks.events import *
META = dict(
    explanation="The event dispatcher is abstractly interpreted over its MIR for an arbitrary header, payload and parser state: on every path the bytes given to the decoder and the checksum mode left behind are compared with the reference. The format description decoder is compared with the reference layout on every payload. The initial modes are read off the constructors.",
    rule="CRC32: payload without its last four bytes; otherwise all of it; mode changed exactly by a format description event, to the algorithm byte after its post-header-length table, or none",
    assumptions=ASSUME)
CK = "constants::checksum_type::ChecksumType"; FDE = "events::format_description_event::FormatDescriptionEvent"
def run(env):
    env.start0 = True
    dispatch(env, "checksum")
    @reg(env, FDE + "::parse")
    def fde(cu, header):
        ver = Z.le(cu, 2)
        sv = Z.take(cu, 50)
        i = Z.find(sv, 0)
        text = Z.utf8(sv if i is None else slice_(sv, ZERO, i, Z.ctx))
        p0 = sub(cu.pos, K(52))
        if Z.test(lt(cu.left, K(5 + 14))): 
            # the format description's own post-header length is missing
            raise SErr("short")
        cu.pos = add(cu.pos, K(5 + 14))
        n = Z.u8(cu)
        ck = Z.enum(CK, "None")
        if Z.test(ne(n, sub(Z.field(header, "event_length"), K(19)))):
            at = Cur(cu.q, add(p0, n))
            b = Z.u8(at)
            k = Z.switch(b, [0, 1])
            if k is None: raise SErr("algorithm")
            ck = Z.enum(CK, ["None", "Crc32"][k])
        return Z.struct(FDE, binlog_version=ver, server_version=text, checksum_type=ck)
    @reg(env, PARSER + "::new")
    def new(): return Z.struct(PARSER, checksum_type=Z.enum(CK, "None"), table_map=Op("map", None, ()))
    EV = "binlog_events::BinlogEvents"
    @reg(env, EV + "::new")
    def evs(ch, ck): return Z.struct(EV, channel=ch, parser=Z.struct(PARSER, checksum_type=ck, table_map=Op("map", None, ())))
    def reader(z, v, st):
        ok, val = outcome(z, v)
        if not ok: return
        p = z.field(val, "parser")
        if z.variant(z.field(p, "checksum_type"))[0] != "None": raise Mismatch("checksum mode of a file reader", z.field(p, "checksum_type"))
        return True
    each_path(env, "binlog_reader::BinlogReader::new", reader)
