from checks.rows import *
META = dict(
    explanation="The rows decoders are abstractly interpreted over their MIR for an arbitrary payload, number of columns and table definition. Loops over rows and columns are summarised and coupled with the reference decoder (same position, same skipped-column count, same cells after every iteration); the row, cell, bitmap and count helpers are contracts where the callers use them, and obligations of their own: the row decoder for any number of columns, the bitmap reader and the bit counter for each of a list of sizes.",
    rule="one cell per column; absent or null columns consume nothing; null bit index = number of preceding present columns; rows until the payload ends; column count mismatch is an error",
    assumptions=ASSUME + ["the bitmap reader behaves for other sizes as for the analysed ones (0 to 33 bits)"])
def run(env):
    for kind in KIND:
        for v in (1, 2): ob_rows_event(env, kind, v)
    ob_row(env); ob_row_long(env); ob_actual(env); ob_bitmap(env); ob_count(env)
