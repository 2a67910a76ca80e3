from checks.session import *
META = dict(
    explanation='Every function of session set-up is abstractly interpreted over its MIR against an arbitrary server (each packet received is an arbitrary byte sequence); the sequence of packets received and sent on every path is compared with a reference protocol that is run on the same abstract packets; loops over replies are summarised and coupled with the loops of the reference. Here the order of exchanges and the outcome after each reply are compared.',
    rule='each request is followed by exactly one consumed reply or result set; an error packet or empty reply at any point means an error and no further packet',
    assumptions=ASSUME + ['the packet channel delivers and sends what C05 decides', 'TLS upgrade and RSA are modelled by contracts'])
def run(env):
    env.focus = set()
    ob_connect(env, True)
    ob_adjust(env)
    ob_heartbeat(env)
    ob_checksum(env)
    ob_mariadb(env)
    ob_mysql(env)
    ob_replicate(env)
