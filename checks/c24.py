from checks.texts import *
META = dict(
    explanation="Every printer and parser of GTID text and the wire forms are abstractly interpreted over their MIR: texts are sequences of known separators, decimal numbers of arbitrary value (including values that do not fit), hexadecimal digits of arbitrary bytes, and arbitrary characters; each path's outcome is compared with the text's meaning.",
    rule="print = own numbers and separators; parse = the numbers written (canonical union per server), everything else an error; wire intervals half-open, in memory inclusive; server ids 16 bytes in order and 8-4-4-4-12 lower-case hexadecimal text",
    assumptions=ASSUME + ["texts of at most 4 entries and 3 intervals per server", "a leading plus sign of a number, the placement of dashes in a server id and white space other than next to commas are left open", "a previous-GTIDs event lists a server once"])
def run(env): env.parallel(jobs(env), lambda f: f())
