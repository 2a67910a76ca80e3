from checks.commits import *
META = dict(
    explanation="BinlogClient::commit is abstractly interpreted over its MIR for every kind of event with arbitrary content and header, from every client state that any history of committed events can reach: states are explored from BinlogClient::new until no new one appears (the saved position being generalised after every step), for every starting strategy and presence of GTID positions; every outcome's saved position is compared with the reference.",
    rule="rotate event: its name and position; table map: unchanged; otherwise the next position unless zero, name unchanged; other options unchanged",
    assumptions=ASSUME + ["adding a GTID to a position is a contract (C23, C25)", "rotate positions of 2^32 or more, which no 32-bit position holds, are outside the property"])
def run(env): ob_history(env, "position")
