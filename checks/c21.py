from checks.session import *
META = dict(
    explanation='Every function of session set-up is abstractly interpreted over its MIR against an arbitrary server (each packet received is an arbitrary byte sequence); the sequence of packets received and sent on every path is compared with a reference protocol that is run on the same abstract packets; loops over replies are summarised and coupled with the loops of the reference. Here the content of the dump, registration and connect-state requests is compared.',
    rule='dump: 0x12, position, flags 0, server id (0 when not blocking), file name; GTID dump: 0x1e, flags, server id, name, position, exact data length, sets; MariaDB: slave_connect_state, registration, dump',
    assumptions=ASSUME + ['the packet channel delivers and sends what C05 decides'])
def run(env):
    env.focus = {'dump'}
    ob_mariadb(env)
    ob_mysql(env)
    ob_gtid_dump_bytes(env)
    ob_replicate(env)
