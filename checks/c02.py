from checks.aspects import *
META = dict(
    explanation="Every function that handles bytes of a server or a file is abstractly interpreted over its MIR on arbitrary input (see C01). Every reservation of memory of a requested size (with_capacity, reserve, vec![x; n], resize, repeat) on every path, and every collection that a loop fills, is an obligation: with at most 2^16 bytes in every buffer at hand its size cannot reach 2^24 (one protocol packet).",
    rule="no allocation whose size is admitted to reach 2^24 elements while all available bytes number at most 2^16",
    assumptions=ASSUME)
def run(env): decide(env, allocs)
