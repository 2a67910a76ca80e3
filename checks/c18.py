from checks.metadata import *
META = dict(
    explanation="The decoder of optional metadata is abstractly interpreted over its MIR, helpers included, on a payload of one entry of every type code and arbitrary content and length (its repetitions coupled with the reference ones), on every two entries of different types and on sequences of all types, for signedness and visibility also on column lists of every type and many lengths, and every outcome is compared with the reference decoding.",
    rule="attribute by type code, decoded from exactly the entry's bytes; bits most significant first; other attributes absent; unknown types are errors",
    assumptions=ASSUME + ["values of 2^32 or more and an attribute given twice are outside the property", "more than one entry: contents of 0, 1 or 2 bytes"])
def run(env): ob_metadata(env)
