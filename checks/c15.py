from checks.tables import *
META = dict(
    explanation="The table map decoder is abstractly interpreted over its MIR on arbitrary bytes and compared with the reference decoding, the metadata of columns, bitmaps and the optional metadata being contracts; the column metadata decoder is compared with the reference for any number of columns of any types by coupling its repetition with the reference one; bitmaps are compared bit by bit for several sizes.",
    rule="every field = reference at the prescribed position; column metadata width and byte order by type, in column order; optional metadata iff bytes remain",
    assumptions=ASSUME + ["the declared length of the column metadata block is not used: the format determines it"])
def run(env): ob_table_map(env); ob_meta(env); ob_meta_long(env); ob_bitmap(env)
