from checks.texts import *
META = dict(
    explanation="GtidList::add_gtid is abstractly interpreted over its MIR on lists of 0 to 8 entries of distinct arbitrary domains and an arbitrary GTID; GtidListEvent::parse on an event of arbitrary content and any number of entries; GtidList::parse on texts of up to four entries with arbitrary numbers.",
    rule="an entry of the same domain is replaced in place, otherwise the GTID is appended, the result tells which; parsed lists have one entry per domain; event entries in order with 4+4+8 bytes each",
    assumptions=ASSUME + ["lists of at most 8 entries when adding", "the number of entries of a list event fits in 28 bits (the upper bits are flags)"])
def run(env): env.parallel([lambda n=n: ob_list_add(env, n) for n in range(8, -1, -1)] + [lambda: ob_list_event(env)] + list_jobs(env), lambda f: f())
