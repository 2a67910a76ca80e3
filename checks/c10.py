from checks.events import *
import checks.rows as ROWS
META = dict(
    explanation="The event dispatcher is abstractly interpreted over its MIR for an arbitrary header, payload and parser state, with every decoder replaced by an arbitrary result; for each of the 256 type codes the decoder called, its arguments and the variant returned are compared with the table of the MySQL and MariaDB formats.",
    rule="code -> decoder, rows layout version, variant; other codes -> UnknownEvent without an error",
    assumptions=ASSUME)
def run(env):
    dispatch(env, "kind")
    for kind in ROWS.KIND:
        for v in (1, 2): ROWS.ob_rows_event(env, kind, v)
