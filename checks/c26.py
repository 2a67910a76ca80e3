from checks.stream import *
META = dict(
    explanation="Opening a file and reading events are abstractly interpreted over their MIR for arbitrary file contents and read failures, event decoding being a contract; the bytes read per event, the bytes decoded, the item yielded and the end of the iteration are compared with the required ones on every path.",
    rule="opened iff magic number; bytes read = 19 + (length - 19); end only on UnexpectedEof of the file; undecodable events and other failures are yielded as errors",
    assumptions=ASSUME + ["Read::take, read_exact and read_to_end of std read the bytes that follow, in order"])
def run(env):
    ob_open(env)
    ob_file(env, "binlog_reader::BinlogReader::read_event", False)
    ob_file(env, FILE, True)
