from checks.gtids import *
META = dict(
    explanation="UuidSet::add_gtid is abstractly interpreted over its MIR on sets of 0 to 9 intervals with arbitrary 64-bit bounds in canonical form and an arbitrary transaction id, and every outcome is compared with the union in canonical form; GtidSet::add_gtid is analysed on an arbitrary map of servers, the per-server addition being a contract.",
    rule="intervals = canonical union; result = id was absent; another server's GTID is refused and changes nothing; other servers' entries untouched",
    assumptions=ASSUME + ["sets of at most 9 intervals", "every entry of a GTID set is stored under its own server id"])
def run(env):
    env.parallel(list(range(9, -1, -1)) + [None], lambda n: ob_set_add(env) if n is None else ob_uuid_add(env, n))
