from checks.aspects import *
META = dict(
    explanation="Every function that handles bytes of a server or a file, GTID text or a committed event is abstractly interpreted over its MIR on arbitrary input (its callees by contract where those are analysed by themselves): decoders of packets, events, rows, cells, column metadata, GTID text, session set-up against an arbitrary server, the event stream, files, and commits from every reachable client state. Every overflow check, index, slice, unwrap, character boundary, explicit panic and panicking library call on every path is an obligation: its failing side must be infeasible.",
    rule="no reachable panic",
    assumptions=ASSUME + ["rows are decoded by tables whose columns and metadata agree in number (an obligation of its own)", "rows of at most 4 columns for every presence and null mask, and one of 40", "GTID sets of at most 7 intervals", "TLS and RSA are contracts"])
def run(env):
    tables_consistent(env)
    decide(env, panics)
