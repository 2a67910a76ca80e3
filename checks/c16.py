from checks.cells import *
META = dict(
    explanation="The cell decoder is abstractly interpreted over its MIR once per column type code and, where the encoding depends on it, per metadata value (BIT(1) to BIT(64), fractional precision 0 to 6, every pack length), on arbitrary bytes; the value and the number of bytes consumed are compared with the reference encoding. The resolution of types behind the string type is compared for arbitrary type and metadata.",
    rule="value and bytes consumed = reference of the type; unsupported types and negative times are errors; for every type code",
    assumptions=ASSUME + ["metadata is one a server can send for the type (pack lengths 1 to 4, BIT up to 64 bits)"])
def run(env): ob_cells(env); ob_actual(env)
