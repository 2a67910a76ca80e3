#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the table below)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Hostile input bytes never panic the client",
 "No byte sequence sent by a server, stored in a binlog file, or passed as GTID text can make the library panic (out-of-range index or slice, arithmetic overflow, unwrap of an error, explicit panic). Malformed, truncated or hostile input always ends in a returned error, the end of the stream, or a decoded value. Committing any decoded event to the replication position never panics either.",
 ["inputs", "histories"], "every byte string at every public decoding entry point, every server reply during session set-up with TLS disabled, every GTID text, every decoded event given to commit",
 "29 tests feed about a dozen well-formed payloads; a panic is one unlucky byte away from any of them.",
 ["src/extensions.rs", "src/events", "src/metadata/table_metadata.rs", "src/providers", "src/responses", "src/configure.rs", "src/connect.rs", "src/binlog_events.rs", "src/binlog_reader.rs", "src/binlog_client.rs"],
 [("range-checked cursor reads and explicit guards", "src/extensions.rs, src/events")], ["panic of any public decoding entry point"])

prop("C02", "Input length fields never drive unbounded allocation",
 "A length or count field in untrusted input never makes the library reserve memory that the bytes actually received do not justify. Every buffer whose size comes from input is bounded by the number of bytes available in the enclosing buffer (up to a small constant factor) or by a fixed constant (one 16 MB protocol packet).",
 ["inputs"], "every value of every length and count field in every packet, event and file",
 "Tests only use true lengths; a forged 2^62 length is never tried and would abort the test process.",
 ["src/extensions.rs", "src/events", "src/metadata/table_metadata.rs", "src/binlog_reader.rs", "src/packet_channel.rs"],
 [("length checked against remaining bytes before reserving", "src/extensions.rs")], ["capacity requested of the allocator"])

prop("C03", "Decoding any input terminates",
 "Decoding one packet, event or GTID text always terminates: each repetition of a decoding loop either consumes at least one byte of the finite input or advances a counter bounded before the loop. A loop that depends on server replies consumes one reply per repetition.",
 ["inputs"], "every byte string, including rows events for tables without columns and zero-length entries",
 "A hang needs a specific degenerate input that no test contains.",
 ["src/events/row_events/row_parser.rs", "src/metadata/table_metadata.rs", "src/extensions.rs", "src/providers", "src/configure.rs"],
 [("cursor progress per repetition", "src/events/row_events/row_parser.rs")], ["non-termination"])

prop("C04", "Every server reply during session set-up is checked for an error",
 "While a session is being set up (handshake, authentication, queries, replica registration) each request is answered by exactly one consumed reply, or one consumed result set, before the next request is sent. If any of those replies is an error packet, set-up fails with an error and no further request is sent. Replication is never reported as started after a server error.",
 ["inputs", "fault_sequences", "configurations"], "every sequence of server replies, every authentication path, provider and starting strategy",
 "No test opens a connection, so none of the reply handling is exercised.",
 ["src/connect.rs", "src/configure.rs", "src/providers/mariadb/mariadb_provider.rs", "src/providers/mysql/mysql_provider.rs", "src/extensions.rs"],
 [("check_error_packet after each read_packet", "src/extensions.rs:check_error_packet")], ["packets written after an error reply", "return value of the set-up functions"])

prop("C05", "Packet framing is exact in both directions",
 "Every packet sent is a 3-byte little-endian body length, a 1-byte sequence number and the complete body, and a body that does not fit one packet is refused with an error instead of being sent truncated. Every packet received is read as exactly such a header followed by exactly that many body bytes, and the body and sequence number handed on are the received ones. A short read or write is an error, never a partial packet.",
 ["inputs", "fault_sequences"], "every packet body and sequence number; every partial read or write of the socket",
 "Tests never touch a socket; partial writes depend on kernel scheduling.",
 ["src/packet_channel.rs"], [("write_packet/read_packet", "src/packet_channel.rs")], ["bytes on the TCP stream"])

prop("C06", "Packet sequence numbers follow the protocol",
 "During connection each packet the client sends carries the sequence number following the last packet received (modulo 256), or the last sent one when two client packets follow each other. Every command after authentication starts a new exchange with sequence number zero.",
 ["inputs", "configurations"], "every sequence number the server may send and every authentication path",
 "No test runs the handshake.",
 ["src/connect.rs", "src/configure.rs", "src/providers"], [("seq_num threading", "src/connect.rs")], ["fourth byte of each packet written"])

prop("C07", "The password never leaves the client in clear on an unencrypted link",
 "On an unencrypted connection no byte sent to the server, and no error or log text, depends on the password except through the authentication plugin's one-way proof or the RSA-encrypted form. In particular the stored password bytes are only ever hashed with the server nonce or XOR-masked and RSA-OAEP-encrypted before they are sent.",
 ["inputs", "configurations"], "every password, server reply sequence, authentication plugin and plugin switch",
 "Information flow over all reply sequences cannot be sampled.",
 ["src/connect.rs", "src/extensions.rs", "src/commands/authenticate_command.rs", "src/commands/auth_plugin_switch_command.rs"],
 [("hash proofs and RSA encryption", "src/extensions.rs:encrypt_password, src/connect.rs:authenticate_sha_256")], ["bytes on the TCP stream", "returned errors"])

prop("C08", "Authentication proofs are computed exactly as the plugin prescribes",
 "For a non-empty password the proof is SHA1(p) xor SHA1(nonce + SHA1(SHA1(p))) for mysql_native_password and SHA256(p) xor SHA256(nonce + SHA256(SHA256(p))) for caching_sha2_password, over the nonce of the handshake or, after a plugin switch, of the switch request; for an empty password the proof is empty. When caching_sha2_password asks for full authentication the client requests the public key and answers with the RSA-OAEP encryption of the zero-terminated password xor-ed with the current nonce repeated over its length.",
 ["inputs", "configurations"], "every password, nonce, plugin and switch sequence",
 "No authentication code is tested at all.",
 ["src/extensions.rs", "src/connect.rs", "src/commands/authenticate_command.rs", "src/commands/auth_plugin_switch_command.rs"],
 [("encrypt_password / authenticate_sha_256", "src/extensions.rs, src/connect.rs")], ["bytes on the TCP stream"])

prop("C09", "The handshake response matches the server's greeting and the options",
 "The nonce is assembled from both parts of the server greeting, and the handshake response carries protocol-4.1 capabilities, a database capability and name exactly when a database is configured, the user name, the proof with its length, and the plugin name announced by the server. A greeting or plugin switch that names an unsupported plugin is rejected with an error before any proof is sent. MariaDB is recognised exactly when the server version contains MariaDB.",
 ["inputs", "configurations"], "every greeting and every combination of user, password and database options",
 "No greeting is parsed by any test.",
 ["src/responses/handshake_packet.rs", "src/commands/authenticate_command.rs", "src/connect.rs", "src/constants"],
 [("HandshakePacket::parse, AuthenticateCommand", "src/responses/handshake_packet.rs, src/commands/authenticate_command.rs")], ["bytes on the TCP stream", "return value of connect"])

prop("C10", "Every event type code is decoded by the right decoder",
 "For each of the 256 event type codes the decoded event is of the kind that code stands for in the MySQL and MariaDB protocols, with rows events using the layout of their version (V1 codes without, V2 codes with the extra-data block). Codes the library does not decode yield the unknown-event value and never an error or another kind.",
 ["inputs"], "all 256 type codes and every payload",
 "No test goes through the dispatcher.",
 ["src/events/event_type.rs", "src/events/event_parser.rs"], [("EventType::from_code and the dispatch match", "src/events/event_parser.rs")], ["variant of the returned event"])

prop("C11", "Event headers and fixed-layout payloads are decoded field by field",
 "The event header and the query, rotate, heartbeat, XID, intvar, user-variable, rows-query and GTID events are decoded with every field taken from exactly the offset, width, byte order and length the binlog format prescribes, and text running to the end of the payload where the format says so. A payload too short for its fields, or text that is not UTF-8, is an error.",
 ["inputs"], "every payload of every length",
 "One user-variable payload and one previous-GTIDs payload are tested; offsets and widths of all other events are unchecked.",
 ["src/events", "src/providers/mysql/events", "src/providers/mariadb/events"], [("parse functions of the events", "src/events")], ["fields of the decoded events"])

prop("C12", "Checksum trailers are excluded exactly when checksums are on",
 "When the current checksum mode is CRC32 the last four bytes of each event are excluded from decoding, and otherwise every byte is decoded. The mode starts as the one negotiated with the server (none for files), and each format description event replaces it with the algorithm stated in that event: the byte that follows its post-header-length table, or none when the event has no such byte. No other event changes the mode.",
 ["inputs", "histories"], "every payload and every sequence of events in both modes",
 "No test decodes a format description event or runs with checksums on.",
 ["src/events/event_parser.rs", "src/events/format_description_event.rs", "src/constants/checksum_type.rs"], [("parse_event cursor set-up, FormatDescriptionEvent::parse", "src/events/event_parser.rs")], ["decoded payloads", "checksum_type of the parser"],
 [("checksum_type", "algorithm applied to following events", "src/events/event_parser.rs:EventParser")])

prop("C13", "Row events are decoded against the latest table map of their table id",
 "A successfully decoded table map becomes the definition for its table id, replacing any earlier one, and no other event adds, changes or removes a definition. Every rows event is decoded with the definition most recently announced for the table id it carries, and a rows event whose table id has no definition is an error.",
 ["histories", "inputs"], "every sequence of table map and rows events",
 "No test decodes a rows event.",
 ["src/events/event_parser.rs", "src/events/row_events/row_parser.rs"], [("table_map cache", "src/events/event_parser.rs:EventParser")], ["decoded rows"],
 [("table_map", "definitions by table id", "src/events/event_parser.rs:EventParser")])

prop("C14", "Row images line up with columns, presence bitmap and null bitmap",
 "Each row of a write, delete or update event yields one cell per table column in column order: absent columns and null columns yield no value without consuming bytes, and every other column consumes and yields its own encoded value. The null bitmap of a row image has one bit per column present in that image, an update decodes the before image with the first and the after image with the second presence bitmap, and rows are decoded back to back until the payload is exhausted. A rows event whose column count disagrees with the table definition is an error.",
 ["inputs"], "every table definition, presence bitmap, null bitmap and row count",
 "No test decodes a row.",
 ["src/events/row_events/row_parser.rs", "src/events/row_events/write_rows_event.rs", "src/events/row_events/update_rows_event.rs", "src/events/row_events/delete_rows_event.rs"], [("parse_row / parse_row_data_list / parse_update_row_data_list", "src/events/row_events/row_parser.rs")], ["cells of the decoded rows"])

prop("C15", "Table maps are decoded exactly, including per-type column metadata",
 "A table map yields the table id, schema and table names, column types and nullability found at the positions the binlog format prescribes. Each column's metadata is the number of bytes its type has in the format (none, one, two little-endian or two big-endian) read consecutively in column order, and optional metadata is decoded exactly when bytes remain.",
 ["inputs"], "every table definition over all 32 column types",
 "No test decodes a table map.",
 ["src/events/table_map_event.rs", "src/constants/column_type.rs"], [("TableMapEvent::parse / parse_metadata", "src/events/table_map_event.rs")], ["fields of the decoded table map"])

prop("C16", "Every column type's cell consumes and yields the value the format defines",
 "For each column type and metadata a cell consumes exactly the bytes of its binary encoding and yields the encoded value: integers, floats, length-prefixed strings and blobs, bit fields, enums and sets (including those hidden behind the string type), and packed dates, times and timestamps with fractional seconds truncated to milliseconds. Types or negative times the library does not support are errors.",
 ["inputs"], "every column type, metadata value and cell content",
 "Only the string-type unpacking has tests, on three metadata values.",
 ["src/events/row_events/row_parser.rs", "src/events/row_events/col_parser.rs", "src/events/row_events/actual_string_type.rs"], [("parse_cell and the per-type parsers", "src/events/row_events/col_parser.rs")], ["cell values"])

prop("C17", "DECIMAL cells are decoded to their exact decimal text",
 "For every precision and scale a DECIMAL cell consumes exactly the bytes of its packed encoding and yields the text with a minus sign for negative values, the integral digits without leading zeros (at least one digit) and exactly scale fractional digits.",
 ["inputs"], "every precision, scale and digit string of both signs",
 "Tests cover six values over three precision/scale pairs.",
 ["src/events/row_events/decimal.rs"], [("parse_decimal", "src/events/row_events/decimal.rs")], ["cell text"])

prop("C18", "Optional table metadata is attributed to the right attribute",
 "Each type-length-value entry of a table map's optional metadata sets exactly the attribute its type code stands for, decoded from exactly the bytes of that entry: signedness and visibility bits most significant first for numeric and all columns respectively, names, ENUM and SET values, charsets and primary keys as length-encoded sequences. An unknown entry type is an error.",
 ["inputs"], "every sequence of metadata entries",
 "No test decodes optional metadata.",
 ["src/metadata/table_metadata.rs", "src/metadata/metadata_type.rs"], [("TableMetadata::parse", "src/metadata/table_metadata.rs")], ["fields of the decoded metadata"])

prop("C19", "The saved binlog position follows the committed events",
 "After an event is committed the saved position is the rotate event's file name and position for a rotate event, unchanged for a table map, and otherwise the event's next position unless that is zero, with the file name unchanged. This holds for every starting strategy.",
 ["histories", "configurations"], "every sequence of committed events",
 "commit is not tested.",
 ["src/binlog_client.rs"], [("update_binlog_position", "src/binlog_client.rs")], ["options.binlog of the client"],
 [("options.binlog.filename/position", "resume point", "src/binlog_options.rs")])

prop("C20", "The saved GTID position advances only when a transaction ends",
 "With GTID replication a transaction's GTID enters the saved GTID position exactly when the event ending it is committed: an XID event, a COMMIT or ROLLBACK query, or a non-empty query outside a transaction. Between a BEGIN query (or a MariaDB GTID event that opens a transaction) and that end no committed event changes the saved GTID position, and with any other strategy none ever does.",
 ["histories", "configurations"], "every sequence of committed events for both providers",
 "commit is not tested; the tests only call add on a set directly.",
 ["src/binlog_client.rs"], [("update_gtid_position / commit_gtid", "src/binlog_client.rs")], ["options.binlog of the client"],
 [("transaction, maria_gtid, mysql_gtid", "open transaction and its GTID", "src/binlog_client.rs:BinlogClient")])

prop("C21", "Dump and registration requests carry the saved position",
 "The dump request carries the saved file name and position and the replica's server id (zero when not blocking); with GTID replication MySQL receives the saved GTID set in the same request, with its exact encoded length, and MariaDB receives the saved GTID list as connect state before replica registration and dump. Each request has the byte layout of its command, and a GTID strategy without the provider's GTID position is an error.",
 ["configurations", "inputs"], "every starting strategy, provider, saved position and option value",
 "No command is serialised by any test.",
 ["src/providers/mariadb/mariadb_provider.rs", "src/providers/mysql/mysql_provider.rs", "src/commands", "src/binlog_client.rs"], [("replicate_mariadb / replicate_mysql / command serialisers", "src/providers, src/commands")], ["bytes on the TCP stream"])

prop("C22", "Each (re)connect starts clean and resumes from the saved position",
 "Starting replication connects first, then forgets any half-seen transaction of the previous connection, then queries the master position only for the from-end strategy with no saved file name (taking file and position from the single row returned), then configures heartbeat and checksum, then requests the dump from the connected provider. A saved position is never overwritten by reconnecting, and the returned stream decodes with the negotiated checksum mode.",
 ["histories", "configurations", "fault_sequences"], "every strategy, provider, failure point and number of reconnects",
 "No test connects.",
 ["src/binlog_client.rs", "src/configure.rs"], [("replicate / adjust_starting_position", "src/binlog_client.rs, src/configure.rs")], ["order of requests", "options.binlog of the client"])

prop("C23", "Adding a GTID to a MySQL GTID set is set union in canonical form",
 "Adding a transaction id to a GTID set whose intervals are sorted, disjoint and non-adjacent yields exactly the union, again sorted, disjoint and non-adjacent, reports whether the id was new, and leaves the intervals of every other server untouched. A GTID of another server is never merged into a server's intervals.",
 ["inputs", "histories"], "every interval list and transaction id, and every sequence of additions",
 "Tests add a handful of ids to short lists.",
 ["src/providers/mysql/gtid/uuid_set.rs", "src/providers/mysql/gtid/gtid_set.rs"], [("find_interval_index / add_gtid / collapse_intervals", "src/providers/mysql/gtid/uuid_set.rs")], ["intervals of the set"])

prop("C24", "GTID positions keep their meaning across wire and text forms",
 "MySQL intervals are inclusive in memory and text and half-open on the wire, so one is subtracted when a previous-GTIDs event is decoded and one is added when a set is sent; server ids keep their 16 bytes in order, and their text is the lower-case 8-4-4-4-12 hexadecimal form. Text forms print every interval or GTID with its own numbers and separators, and parsing accepts exactly well-formed text and yields the numbers written, rejecting anything else with an error.",
 ["inputs"], "every GTID set, list and text",
 "Tests compare a few literal strings.",
 ["src/providers/mysql/gtid", "src/providers/mysql/events/prev_gtids_event.rs", "src/commands/dump_binlog_gtid_command.rs", "src/providers/mariadb/gtid"], [("parse / Display / serialize", "src/providers/mysql/gtid, src/providers/mariadb/gtid")], ["decoded sets", "printed text", "bytes on the TCP stream"])

prop("C25", "A MariaDB GTID list holds the latest GTID of each domain",
 "Adding a GTID replaces the entry of its domain in place, or appends it when the domain is new, and leaves every other entry untouched; the result tells whether the domain was new. Parsed lists never hold two entries of one domain, and a GTID list event yields its entries in order with domain, server and sequence as encoded.",
 ["inputs", "histories"], "every list and every GTID added",
 "Tests use lists of at most three entries.",
 ["src/providers/mariadb/gtid/gtid_list.rs", "src/providers/mariadb/events/gtid_list_event.rs"], [("GtidList::add_gtid / parse, GtidListEvent::parse", "src/providers/mariadb/gtid/gtid_list.rs")], ["entries of the list"])

prop("C26", "The file reader yields every event of a binlog file and stops cleanly",
 "Opening a file succeeds exactly when it starts with the binlog magic number, and then each event is read as a 19-byte header followed by exactly the header's length minus 19 payload bytes, whatever the size. Iteration ends only when the file has no further complete event; a read failure of another kind, or an event whose content cannot be decoded, is yielded as an error and never silently ends the iteration.",
 ["inputs", "fault_sequences"], "every file content, event size and read failure",
 "No test opens a file.",
 ["src/binlog_reader.rs"], [("BinlogReader::new / read_event / next", "src/binlog_reader.rs")], ["items of the iterator"])

prop("C27", "The event stream distinguishes events, server errors and end of stream",
 "Each item of the live stream is decided by one received packet: status 0 yields the decoded event (header and payload following the status byte) or its decoding error, 0xFF yields an error, 0xFE ends the stream, and any other status or an empty packet yields an error. A transport failure is yielded as an I/O error, never as the end of the stream.",
 ["inputs", "fault_sequences"], "every packet and every transport failure",
 "No test drives the stream iterator.",
 ["src/binlog_events.rs"], [("Iterator for BinlogEvents", "src/binlog_events.rs")], ["items of the iterator"])

prop("C28", "Length-encoded integers, strings and result-set rows decode exactly",
 "A length-encoded integer is one byte below 0xFB, or 2, 3 or 8 little-endian bytes after 0xFC, 0xFD or 0xFE, and 0xFB or 0xFF there is an error; a length-encoded string is that many bytes of UTF-8. A result-set row yields exactly the strings it encodes, in order, until the packet is exhausted, and a result set ends at its end-of-file packet.",
 ["inputs"], "every encoding of every length and every row packet",
 "No direct test of these primitives exists.",
 ["src/extensions.rs", "src/responses/result_set_row_packet.rs", "src/configure.rs"], [("read_len_enc_num / read_len_enc_str / ResultSetRowPacket::parse", "src/extensions.rs")], ["decoded values"])

prop("C29", "A required TLS mode is never downgraded",
 "When the options require TLS and the server does not offer it, connecting fails before any client packet is sent. When TLS is requested and the server offers it, a TLS request precedes the upgrade, and no credentials-bearing packet is ever sent on the connection before the upgrade completes.",
 ["configurations", "inputs"], "all five TLS modes and every server capability set",
 "No test connects or sets a TLS mode.",
 ["src/connect.rs", "src/ssl_mode.rs", "src/commands/ssl_request_command.rs", "src/binlog_client.rs"], [("authenticate", "src/connect.rs")], ["bytes on the TCP stream"])

prop("C30", "Heartbeat period and read timeout are derived from the heartbeat option",
 "The heartbeat period requested from the master is the configured interval in nanoseconds at millisecond granularity, and the socket read timeout is that interval plus a fixed latency allowance, so a live master's heartbeats always arrive before the timeout. A read timeout is set on every connection before anything is read.",
 ["configurations"], "every heartbeat interval",
 "No test connects.",
 ["src/packet_channel.rs", "src/configure.rs", "src/constants/mod.rs"], [("PacketChannel::new / set_master_heartbeat", "src/packet_channel.rs, src/configure.rs")], ["socket options", "bytes on the TCP stream"])

prop("C31", "A failed decode leaves the decoder state unchanged",
 "If decoding an event returns an error, the checksum mode and all table definitions are exactly as they were before that event, so later events decode as if the bad event had not been seen.",
 ["inputs", "histories"], "every event and every point of failure within it",
 "No test decodes a malformed event, let alone continues after it.",
 ["src/events/event_parser.rs"], [("state updates after the fallible part of parse_event", "src/events/event_parser.rs")], ["checksum_type and decoding of later events"])

prop("C32", "Server errors are reported with their code, state and message",
 "When the server answers with an error packet, during set-up or in the event stream, the returned error text contains the server's error code, its SQL state when present, and its message, taken from the packet after the error marker.",
 ["inputs"], "every error packet",
 "No error packet is parsed by any test.",
 ["src/responses/error_packet.rs", "src/extensions.rs", "src/binlog_events.rs"], [("ErrorPacket::parse", "src/responses/error_packet.rs")], ["returned errors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
