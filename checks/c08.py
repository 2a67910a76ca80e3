from checks.session import *
META = dict(
    explanation='Every function of session set-up is abstractly interpreted over its MIR against an arbitrary server (each packet received is an arbitrary byte sequence); the sequence of packets received and sent on every path is compared with a reference protocol that is run on the same abstract packets; loops over replies are summarised and coupled with the loops of the reference. Here the authentication proofs, the plugin switch and the full authentication of caching_sha2_password are compared byte by byte, with SHA1, SHA256 and RSA-OAEP as uninterpreted one-way functions.',
    rule='native: SHA1(p) ^ SHA1(nonce+SHA1(SHA1(p))); sha2: SHA256(p) ^ SHA256(nonce+SHA256(SHA256(p))); empty for an empty password; full authentication: 0x02, then RSA-OAEP of (p+NUL) xor nonce repeated',
    assumptions=ASSUME + ['the packet channel delivers and sends what C05 decides', 'the sha and openssl crates compute SHA1, SHA256 and RSA-OAEP'])
def run(env):
    env.focus = {'proof'}
    ob_connect(env, True)
    ob_switch(env)
    ob_handshake(env)
