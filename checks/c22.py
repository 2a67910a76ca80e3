from checks.session import *
META = dict(
    explanation='Every function of session set-up is abstractly interpreted over its MIR against an arbitrary server (each packet received is an arbitrary byte sequence); the sequence of packets received and sent on every path is compared with a reference protocol that is run on the same abstract packets; loops over replies are summarised and coupled with the loops of the reference. Here the order of set-up, the replication state left in the client, the choice of the starting position and the stream returned are compared; and over every history of commits and reconnects, whether a GTID seen before a reconnect can still be saved after it.',
    rule='connect; clear transaction and pending GTIDs; SHOW MASTER STATUS only from-end with empty file name; heartbeat; checksum; dump from the connected provider; returned stream: this channel, negotiated checksum, no table maps',
    assumptions=ASSUME + ['the packet channel delivers and sends what C05 decides'])
def run(env):
    env.focus = {'query'}
    ob_adjust(env, True)
    ob_checksum(env)
    ob_replicate(env)
    # what a transaction that was cut off by a reconnect leaves behind
    from checks import commits
    commits.ob_history(env, "gtid", True)
