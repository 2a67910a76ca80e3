from checks.commits import *
META = dict(
    explanation="BinlogClient::commit is abstractly interpreted over its MIR for every kind of event with arbitrary content, from every client state that any history of committed events and reconnections can reach: states are explored from BinlogClient::new until no new one appears, for every starting strategy and presence of GTID positions, next to the reference's account of the open transaction and its GTID; each outcome's additions to the saved GTID positions are compared with the reference.",
    rule="the GTID of the transaction enters the position exactly when its end is committed and the strategy is GTID; otherwise the position is unchanged",
    assumptions=ASSUME + ["adding a GTID to a position is a contract (C23, C25)", "connecting and configuring a session are contracts (C21, C22, C30, C31)"])
def run(env): ob_history(env, "gtid")
