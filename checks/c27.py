from checks.stream import *
META = dict(
    explanation="The live stream's next is abstractly interpreted over its MIR for an arbitrary packet or transport failure, packet reading and event decoding being contracts; the item, the packets consumed and the decoder state are compared with the required ones on every path.",
    rule="one packet per item; 0 -> decoded event or error, 0xFF / other / empty -> error, 0xFE -> end, transport failure -> I/O error",
    assumptions=ASSUME)
def run(env): ob_live(env)
