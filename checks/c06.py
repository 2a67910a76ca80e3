from checks.session import *
META = dict(
    explanation='Every function of session set-up is abstractly interpreted over its MIR against an arbitrary server (each packet received is an arbitrary byte sequence); the sequence of packets received and sent on every path is compared with a reference protocol that is run on the same abstract packets; loops over replies are summarised and coupled with the loops of the reference. Here the sequence number of every packet sent is compared.',
    rule='number sent = number of the packet last received + 1 mod 256 (or last sent + 1), zero for the first packet of a command',
    assumptions=ASSUME + ['the packet channel delivers and sends what C05 decides'])
def run(env):
    env.focus = {'seq'}
    ob_connect(env, True)
    ob_adjust(env)
    ob_heartbeat(env)
    ob_checksum(env)
    ob_mariadb(env)
    ob_mysql(env)
