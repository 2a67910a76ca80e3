from checks.session import *
META = dict(
    explanation='Every function of session set-up is abstractly interpreted over its MIR against an arbitrary server (each packet received is an arbitrary byte sequence); the sequence of packets received and sent on every path is compared with a reference protocol that is run on the same abstract packets; loops over replies are summarised and coupled with the loops of the reference. Here connections under every TLS mode and every set of server capabilities are compared.',
    rule='TLS requested and offered: TLS request, upgrade, then the handshake response; required but not offered: an error before any packet is sent; never a password or proof before the upgrade',
    assumptions=ASSUME + ['the packet channel delivers and sends what C05 decides', 'upgrade_to_ssl either completes the upgrade or does not return'])
def run(env):
    env.focus = {'proof', 'tls'}
    ob_connect(env, True)
