from env import *
from checks.common import *
Z = Proxy()

META = dict(
    explanation="Each fixed-layout decoder is abstractly interpreted over its MIR on an arbitrary payload; every returned value and every error is compared with a reference layout on all inputs of that path.",
    rule="For every path of a decoder: Ok iff the payload holds every field (and text is UTF-8), with each field equal to the bytes at the prescribed offset, width and byte order.",
    assumptions=ASSUME)

def run(env):
    env.start0 = True
    U = "events::"
    @reg(env, U + "event_header::EventHeader::parse")
    def header(q):
        cu = Cur(q) if not isinstance(q, Cur) else q
        return Z.struct(U + "event_header::EventHeader", timestamp=Z.le(cu, 4), event_type=Z.u8(cu), server_id=Z.le(cu, 4),
                        event_length=Z.le(cu, 4), next_event_position=Z.le(cu, 4), event_flags=Z.le(cu, 2))
    @reg(env, U + "query_event::QueryEvent::parse")
    def query(cu):
        tid = Z.le(cu, 4); dur = Z.le(cu, 4); n = Z.u8(cu); err = Z.le(cu, 2); k = Z.le(cu, 2)
        sv = Z.take(cu, k); db = Z.text(cu, n); Z.take(cu, 1); sql = Z.utf8(Z.rest(cu))
        return Z.struct(U + "query_event::QueryEvent", thread_id=tid, duration=dur, error_code=err, status_variables=sv, database_name=db, sql_statement=sql)
    @reg(env, U + "rotate_event::RotateEvent::parse")
    def rotate(cu):
        pos = Z.le(cu, 8)
        return Z.struct(U + "rotate_event::RotateEvent", binlog_position=pos, binlog_filename=Z.utf8(Z.rest(cu)))
    @reg(env, U + "heartbeat_event::HeartbeatEvent::parse")
    def heartbeat(cu): return Z.struct(U + "heartbeat_event::HeartbeatEvent", binlog_filename=Z.utf8(Z.rest(cu)))
    @reg(env, U + "xid_event::XidEvent::parse")
    def xid(cu): return Z.struct(U + "xid_event::XidEvent", xid=Z.le(cu, 8))
    @reg(env, U + "intvar_event::IntVarEvent::parse")
    def intvar(cu):
        t = Z.u8(cu)
        return Z.struct(U + "intvar_event::IntVarEvent", intvar_type=t, value=Z.le(cu, 8))
    @reg(env, U + "uservar_event::UserVarEvent::parse")
    def uservar(cu):
        T = U + "uservar_event::UserVarEvent"
        n = Z.le(cu, 4); name = Z.text(cu, n)
        o = Z.fty(T, "value")
        if Z.test(ne(Z.u8(cu))): return Z.struct(T, name=name, value=Z.none(o))
        vt = Z.u8(cu); col = Z.le(cu, 4); k = Z.le(cu, 4); val = Z.text(cu, k); fl = Z.u8(cu)
        return Z.struct(T, name=name, value=Z.some(o, Z.struct(U + "uservar_event::VariableValue", var_type=vt, collation=col, value=val, flags=fl)))
    @reg(env, U + "rows_query_event::RowsQueryEvent::parse_mysql")
    def rq(cu):
        Z.take(cu, 1)
        return Z.struct(U + "rows_query_event::RowsQueryEvent", query=Z.utf8(Z.rest(cu)))
    @reg(env, U + "rows_query_event::RowsQueryEvent::parse_mariadb")
    def rqm(cu): return Z.struct(U + "rows_query_event::RowsQueryEvent", query=Z.utf8(Z.rest(cu)))
    M = "providers::mysql::"
    @reg(env, M + "events::gtid_event::GtidEvent::parse")
    def gm(cu):
        fl = Z.u8(cu); u = Z.take(cu, 16); n = Z.le(cu, 8)
        return Z.struct(M + "events::gtid_event::GtidEvent", flags=fl, gtid=Z.struct(M + "gtid::gtid::Gtid", source_id=uuid(u), transaction_id=n))
    M2 = "providers::mariadb::"
    @reg(env, M2 + "events::gtid_event::GtidEvent::parse")
    def gmm(cu, header):
        seq = Z.le(cu, 8); dom = Z.le(cu, 4); fl = Z.u8(cu)
        return Z.struct(M2 + "events::gtid_event::GtidEvent", flags=fl, gtid=Z.struct(M2 + "gtid::gtid::Gtid", domain_id=dom, server_id=Z.field(header, "server_id"), sequence=seq))
