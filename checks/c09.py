from checks.session import *
META = dict(
    explanation='Every function of session set-up is abstractly interpreted over its MIR against an arbitrary server (each packet received is an arbitrary byte sequence); the sequence of packets received and sent on every path is compared with a reference protocol that is run on the same abstract packets; loops over replies are summarised and coupled with the loops of the reference. Here the bytes of the handshake response, the fields of the greeting and the provider returned are compared.',
    rule='response = capabilities (4.1, secure connection, plugin auth, long flag; database iff configured), max packet 0, collation, 23 zero bytes, user NUL, proof length, proof, [database NUL], plugin NUL',
    assumptions=ASSUME + ['the packet channel delivers and sends what C05 decides'])
def run(env):
    env.focus = {'response'}
    ob_connect(env, True, True)
    ob_handshake(env)
