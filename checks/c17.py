from checks.decimals import *
META = dict(
    explanation="The DECIMAL decoder is abstractly interpreted over its MIR once for every precision from 1 to 65 and every scale a server allows, on arbitrary bytes; sign, leading zeros, every digit of the text and the number of bytes consumed are compared with the packed decimal format. Impossible metadata must be refused.",
    rule="text = sign, integral digits without leading zeros (at least 0), point, exactly scale fractional digits; bytes consumed = packed length; for every precision and scale",
    assumptions=ASSUME + ["a group of n digits holds a number below 10^n and zero is not negative, as servers write it"])
def run(env):
    ob_decimal(env, pairs()); ob_invalid(env)
