#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Arbitrary binlog bytes never crash, hang or exhaust the process",
 "Whatever bytes a binlog file or an established replication stream contains, reading it yields events and/or errors: it never panics, aborts, overflows or loops without consuming input. "
 "Memory used for an event is bounded by what was actually received for it (its bytes, and the rows and columns they really contain), never by a length or count field claiming more. "
 "After an event that cannot be decoded, the reader or stream can still be used for the following events.",
 ["inputs", "histories"], "all byte strings given as a binlog file or as event packets after a successful session setup, including mutations of valid streams and any order of events",
 "The existing tests decode about ten fixed, well-formed payloads; none feeds a truncated, corrupted or adversarial event.",
 ["src/binlog_reader.rs", "src/binlog_events.rs", "src/events/event_parser.rs", "src/events/table_map_event.rs", "src/events/row_events/row_parser.rs", "src/events/row_events/col_parser.rs", "src/events/row_events/decimal.rs", "src/extensions.rs", "src/metadata/table_metadata.rs"],
 [("bounds-checked reads through a cursor", "src/extensions.rs"), ("errors returned instead of panics", "src/events/event_parser.rs: parse_event"), ("event length validation", "src/binlog_reader.rs: read_event")],
 observe=["BinlogReader iterator", "BinlogEvents iterator", "allocator", "panic hook"])

prop("C02", "A hostile or broken server cannot crash the client while connecting",
 "Whatever bytes the peer sends during greeting, authentication and session setup, starting replication returns a stream or an error: it never panics, aborts, overflows or loops without consuming input. "
 "The same holds when the peer closes the connection after any number of bytes. A connection that ends early is always reported as an error, not as a started stream.",
 ["inputs", "fault_sequences"], "all byte sequences and cut points a peer can produce in place of, or mutated from, each response of a session",
 "No test opens a connection; greeting, auth-switch, error, result-set and OK packet handling is compiled but never run.",
 ["src/connect.rs", "src/configure.rs", "src/packet_channel.rs", "src/responses/handshake_packet.rs", "src/responses/auth_switch_packet.rs", "src/responses/error_packet.rs", "src/responses/result_set_row_packet.rs", "src/extensions.rs"],
 [("packet parsing", "src/responses/"), ("check_error_packet", "src/extensions.rs")],
 observe=["BinlogClient::replicate result", "panic hook", "allocator"])

prop("C03", "GTID text is parsed faithfully or rejected, never mangled and never a crash",
 "Parsing any text as a MySQL GTID set or a MariaDB GTID list returns either the state that text denotes or an error; it never panics and never drops, truncates or reorders away a part of the text. "
 "All spellings of one MySQL set (letter case, blanks and newlines around commas, repeated server ids, intervals out of order, adjacent or overlapping) give the same set, printed in one canonical form. "
 "Text that is not in the documented format (missing, extra or non-numeric components, wrong separators, malformed server ids, duplicate MariaDB domains) is rejected.",
 ["inputs"], "all strings: every spelling of valid sets and lists, and arbitrary or mutated text",
 "The tests parse a dozen well-formed, ordered, lower-case strings and one duplicate-domain list.",
 ["src/providers/mysql/gtid/gtid_set.rs", "src/providers/mysql/gtid/uuid.rs", "src/providers/mysql/gtid/uuid_set.rs", "src/providers/mariadb/gtid/gtid_list.rs"],
 [("GtidSet::parse", "src/providers/mysql/gtid/gtid_set.rs"), ("Uuid::parse", "src/providers/mysql/gtid/uuid.rs"), ("interval normalisation", "src/providers/mysql/gtid/uuid_set.rs"), ("GtidList::parse", "src/providers/mariadb/gtid/gtid_list.rs")],
 observe=["GtidSet::parse/to_string", "GtidList::parse/to_string"])

prop("C04", "Integer, floating and DECIMAL cells decode to exactly the stored value",
 "For every TINYINT, SMALLINT, MEDIUMINT, INT, BIGINT, FLOAT, DOUBLE and DECIMAL column and every value the server can store in it, the decoded cell carries exactly that value: the full bit pattern for integers and floats, and for decimals the canonical text with sign, no superfluous leading zeros, and exactly the declared number of fraction digits. "
 "This holds for every declared precision and scale, and decoding a cell consumes exactly its bytes, so the cells after it are right too.",
 ["inputs"], "all values of all numeric column types, all DECIMAL(p,s) with 1<=p<=65, 0<=s<=30, s<=p",
 "Six decimal payloads from two column definitions are tested; integer and float cells are not tested at all.",
 ["src/events/row_events/decimal.rs", "src/events/row_events/row_parser.rs"],
 [("parse_decimal", "src/events/row_events/decimal.rs"), ("parse_cell", "src/events/row_events/row_parser.rs")], observe=["RowData.cells"])

prop("C05", "Temporal cells decode to the stored date, time or instant",
 "For every YEAR, DATE, TIME, DATETIME and TIMESTAMP column, in the old and the fractional-second storage format with 0 to 6 fraction digits, every value the server can store decodes to the same calendar and clock fields, or the same instant in milliseconds, with the fraction truncated to milliseconds. "
 "Zero and partially zero dates keep their zero fields. A value the library cannot represent (a negative TIME) is reported as an error and never returned as a different value.",
 ["inputs"], "all values of all temporal types and precisions",
 "No temporal cell is decoded by any existing test.",
 ["src/events/row_events/col_parser.rs", "src/events/row_events/row_parser.rs"],
 [("parse_date/parse_time/parse_date_time and their *2 variants, parse_timestamp, parse_year", "src/events/row_events/col_parser.rs")], observe=["RowData.cells"])

prop("C06", "String, blob, JSON, BIT, ENUM and SET cells decode losslessly",
 "For every CHAR, VARCHAR, BINARY/BLOB, JSON, GEOMETRY, BIT, ENUM and SET column and every storable value, the decoded cell is exactly that value: the same text or bytes, the enum index, the set bit mask, and the bits most significant first. "
 "This holds on both sides of every length-encoding boundary (declared lengths below, at and above 255 bytes, all blob length sizes, all bit counts, one- and two-byte enums, one- to eight-byte sets). Text that is not valid UTF-8 is reported as an error, never altered.",
 ["inputs"], "all values and declared lengths of all character, binary, bit, enum and set column types",
 "Only three string-type metadata conversions are tested; no string, blob, bit, enum or set cell is decoded.",
 ["src/events/row_events/col_parser.rs", "src/events/row_events/actual_string_type.rs", "src/events/row_events/row_parser.rs", "src/events/table_map_event.rs", "src/extensions.rs"],
 [("parse_string/parse_blob/parse_bit", "src/events/row_events/col_parser.rs"), ("get_actual_string_type", "src/events/row_events/actual_string_type.rs"), ("parse_metadata", "src/events/table_map_event.rs")], observe=["RowData.cells"])

prop("C07", "Every changed row is delivered, each cell at its own column",
 "A write, update or delete event (both row-event versions, any table width, any subset of columns present, any NULLs, any number of rows, any extra header data) decodes to exactly the rows it contains, in order, with before and after images not mixed up. "
 "Each row has one entry per table column: the value at its own column position, and nothing for columns that are NULL or not included. The reported table id, flags, column count and column-presence maps are those of the event.",
 ["inputs"], "all table shapes, presence and NULL bitmaps, row counts, event kinds and versions",
 "No rows event is decoded by any existing test.",
 ["src/events/row_events/row_parser.rs", "src/events/row_events/write_rows_event.rs", "src/events/row_events/update_rows_event.rs", "src/events/row_events/delete_rows_event.rs", "src/extensions.rs"],
 [("parse_row", "src/events/row_events/row_parser.rs"), ("parse_head", "src/events/row_events/row_parser.rs"), ("read_bitmap_little_endian", "src/extensions.rs")], observe=["WriteRowsEvent, UpdateRowsEvent, DeleteRowsEvent"])

prop("C08", "Row changes are decoded with the latest definition of their own table",
 "Within one stream or file, every row event is decoded with the most recent table definition seen for its table id, however many tables are interleaved, redefined, renumbered or left unused in between. "
 "A row event whose table id has not been defined in that stream is reported as an error, never decoded with another table's definition, and leaves later events unaffected. Definitions never leak from one reader, or from one session of a client, into another.",
 ["histories"], "all sequences of table definitions and row events over any set of 48-bit table ids, including reconnections",
 "No test feeds a table definition followed by rows, let alone a history of them.",
 ["src/events/event_parser.rs", "src/events/table_map_event.rs", "src/events/row_events/row_parser.rs", "src/binlog_events.rs"],
 [("table map cache insertion", "src/events/event_parser.rs: parse_event"), ("table lookup by id", "src/events/row_events/row_parser.rs")],
 state=[("table_map", "latest table definition per table id", "EventParser")], observe=["sequence of events from an iterator"])

prop("C09", "Table definitions and their optional metadata decode exactly",
 "For every table definition, the decoded table id, database and table names, column types, per-column type metadata and nullability are those the server wrote, for any number of columns. "
 "Every optional metadata field present (signedness, default and per-column charsets, column names, SET and ENUM value names, geometry types, primary keys with and without prefixes, ENUM/SET charsets, visibility) decodes to exactly the recorded values, in any order and combination, and absent fields are reported absent.",
 ["inputs"], "all table shapes, all combinations, orders and contents of optional metadata fields, all length-encoding sizes",
 "No test decodes a table definition or any optional metadata.",
 ["src/events/table_map_event.rs", "src/metadata/table_metadata.rs", "src/metadata/default_charset.rs", "src/extensions.rs"],
 [("TableMapEvent::parse", "src/events/table_map_event.rs"), ("TableMetadata::parse", "src/metadata/table_metadata.rs"), ("length-encoded numbers", "src/extensions.rs: read_len_enc_num")], observe=["TableMapEvent"])

prop("C10", "Header and non-row events carry exactly the fields the server wrote",
 "For every event, the reported header (timestamp, type, server id, length, next position, flags) equals the bytes on the wire. "
 "Query, transaction-commit, rotate, integer-variable, user-variable, row-query, heartbeat, format-description, MySQL GTID and previous-GTIDs, and MariaDB GTID, GTID-list and annotate events decode to exactly the fields written, for all field values and lengths. "
 "An event type the library does not decode is delivered in its place as an unknown event with its header and does not disturb the events around it.",
 ["inputs"], "all field values and lengths of every supported event type, and all 256 event type codes",
 "Two events (one user variable, one previous-GTIDs) are decoded by tests; the header and all other events never are.",
 ["src/events/event_header.rs", "src/events/event_parser.rs", "src/events/event_type.rs", "src/events/query_event.rs", "src/events/rotate_event.rs", "src/events/uservar_event.rs", "src/events/intvar_event.rs", "src/events/xid_event.rs", "src/events/rows_query_event.rs", "src/events/heartbeat_event.rs", "src/events/format_description_event.rs", "src/providers/mysql/events/gtid_event.rs", "src/providers/mysql/events/prev_gtids_event.rs", "src/providers/mariadb/events/gtid_event.rs", "src/providers/mariadb/events/gtid_list_event.rs"],
 [("dispatch on the type code", "src/events/event_parser.rs: parse_event"), ("per-event parse functions", "src/events/, src/providers/*/events/")], observe=["EventHeader and BinlogEvent from the iterators"])

prop("C11", "Checksums never change what is decoded",
 "The same sequence of events gives the same decoded events whether the log carries CRC32 checksums or none, read from a file or from a stream, for MySQL and MariaDB layouts of the format description of any size. "
 "The checksum setting in force is that of the latest format description, or the one negotiated at session setup until the first one arrives; trailing checksum bytes never appear in an event's content and content is never cut short when there is no checksum.",
 ["inputs", "histories", "configurations"], "all event sequences x {no checksum, CRC32, pre-checksum format} x {file, stream}, including changes in mid-stream",
 "No test runs the parser with a checksum, nor decodes a format description event.",
 ["src/events/event_parser.rs", "src/events/format_description_event.rs", "src/constants/checksum_type.rs", "src/configure.rs", "src/binlog_events.rs"],
 [("payload slice without checksum", "src/events/event_parser.rs: parse_event"), ("checksum algorithm detection", "src/events/format_description_event.rs"), ("negotiation", "src/configure.rs: set_master_binlog_checksum")],
 state=[("checksum_type", "checksum algorithm in force", "EventParser")], observe=["events decoded from both encodings"])

prop("C12", "Reading a binlog file yields every complete event, once and in order",
 "Reading a binlog file yields each complete event exactly once, in file order, whatever the sizes of the events; the end of iteration means the end of the file was reached. "
 "If the file ends in the middle of an event (a crash or a log still being written), all events before the torn one are yielded. "
 "An event that is complete but cannot be decoded is yielded as an error in its place and the events after it are still yielded; a file without the binlog signature is rejected.",
 ["inputs", "crash_points"], "all event sequences with payload sizes around and far beyond every buffer boundary, all truncation offsets, all positions of an undecodable event",
 "No test opens a binlog file.",
 ["src/binlog_reader.rs"],
 [("BinlogReader::read_event and the small/large payload paths", "src/binlog_reader.rs"), ("end-of-file mapping", "src/binlog_reader.rs: Iterator::next")], observe=["BinlogReader iterator"])

prop("C13", "The replication stream delivers every event once, in order, or an error",
 "However the server's bytes are split into TCP segments and delayed, the stream yields every event packet exactly once, in order, with the same content, for all sizes a single packet can have. "
 "The stream ends quietly only when the server says end-of-stream; a server error packet is yielded as an error carrying the server's code and message; a lost connection (at a packet boundary or inside a packet) or an unknown packet is yielded as an error. "
 "Nothing is yielded for bytes the server did not send.",
 ["inputs", "fault_sequences", "schedules"], "all event sequences, segmentations of the byte stream, sizes up to the single-packet limit, and cut points",
 "No test opens a connection.",
 ["src/packet_channel.rs", "src/binlog_events.rs", "src/responses/error_packet.rs", "src/responses/end_of_file_packet.rs"],
 [("read_packet", "src/packet_channel.rs"), ("status byte dispatch", "src/binlog_events.rs: Iterator::next")], observe=["BinlogEvents iterator against the mock server's log"])

prop("C14", "Adding GTIDs to a MySQL GTID set is exact set insertion",
 "After any sequence of additions, in any order and with any repetitions, a MySQL GTID set contains exactly the transactions it started with plus those added, for every server id separately. "
 "Each addition reports truthfully whether the transaction was new, and the set is always kept in canonical form: per server, sorted, disjoint, non-adjacent intervals; equal sets print identically. The set of a single server behaves likewise and refuses transactions of other servers.",
 ["histories", "inputs"], "all initial sets and all sequences of additions of any transaction number to any server id",
 "The tests perform seven additions to two small sets.",
 ["src/providers/mysql/gtid/gtid_set.rs", "src/providers/mysql/gtid/uuid_set.rs", "src/providers/mysql/gtid/interval.rs", "src/providers/mysql/gtid/uuid.rs"],
 [("UuidSet::add_gtid", "src/providers/mysql/gtid/uuid_set.rs"), ("find_interval_index", "src/providers/mysql/gtid/uuid_set.rs"), ("collapse_intervals", "src/providers/mysql/gtid/uuid_set.rs")],
 state=[("uuid_sets", "intervals per server id", "GtidSet")], observe=["add_gtid result", "intervals", "to_string"])

prop("C15", "A GTID position means the same in memory, as text, in events and on the wire",
 "A MySQL GTID set survives every change of representation: its printed text parses back to the same set, the set a previous-GTIDs event describes is the set decoded, and the set sent in a dump request is exactly the set held, whatever the number of servers and intervals. "
 "A MariaDB GTID list likewise: its text parses back to the same list, a GTID-list event decodes to exactly its entries, and the connect state sent to the server denotes the list held.",
 ["inputs"], "all GTID sets and lists, including large ones and ones with extreme transaction numbers",
 "One previous-GTIDs payload and a few texts are tested; the dump request encoding and GTID-list event never are.",
 ["src/commands/dump_binlog_gtid_command.rs", "src/providers/mysql/events/prev_gtids_event.rs", "src/providers/mysql/gtid/gtid_set.rs", "src/providers/mysql/gtid/uuid.rs", "src/providers/mariadb/gtid/gtid_list.rs", "src/providers/mariadb/events/gtid_list_event.rs", "src/providers/mariadb/mariadb_provider.rs"],
 [("DumpBinlogGtidCommand::serialize", "src/commands/dump_binlog_gtid_command.rs"), ("PreviousGtidsEvent::parse", "src/providers/mysql/events/prev_gtids_event.rs"), ("register_gtid_slave", "src/providers/mariadb/mariadb_provider.rs")],
 observe=["dump request bytes at the mock server", "decoded events", "to_string/parse"])

prop("C16", "A MariaDB GTID list holds exactly the last GTID of every domain",
 "After any sequence of additions a MariaDB GTID list holds exactly one entry per replication domain ever present: the last GTID added for it, or the initial one if none was added. "
 "Adding to one domain never changes another, each addition reports truthfully whether the domain was new, and the printed list denotes exactly the entries held.",
 ["histories", "inputs"], "all initial lists and all sequences of additions over any domains, servers and sequence numbers",
 "The tests perform three single additions.",
 ["src/providers/mariadb/gtid/gtid_list.rs", "src/providers/mariadb/gtid/gtid.rs"],
 [("GtidList::add_gtid", "src/providers/mariadb/gtid/gtid_list.rs")], state=[("gtids", "last GTID per domain", "GtidList")], observe=["add_gtid result", "gtids", "to_string"])

prop("C17", "The recorded GTID position contains exactly the fully processed transactions",
 "When replicating by GTID, after every committed event the recorded GTID position equals the starting position plus exactly the transactions whose final event has been committed: a transaction is never recorded before its last event, and always as soon as that event is committed. "
 "This holds for row- and statement-based transactions, savepoints, DDL and other standalone statements, transactions ended by a commit marker, COMMIT or ROLLBACK, XA transactions, interrupted transactions, multiple domains and servers, on MySQL and MariaDB. "
 "When not replicating by GTID, committing events does not create or change a GTID position.",
 ["histories", "crash_points"], "all well-formed event histories and every prefix of them",
 "No test calls commit.",
 ["src/binlog_client.rs", "src/providers/mysql/gtid/gtid_set.rs", "src/providers/mariadb/gtid/gtid_list.rs"],
 [("update_gtid_position/commit_gtid", "src/binlog_client.rs"), ("reset on reconnect", "src/binlog_client.rs: replicate")],
 state=[("transaction, maria_gtid, mysql_gtid", "open transaction and its pending GTID", "BinlogClient")], observe=["client.options.binlog after each commit"])

prop("C18", "The recorded file position always follows the last committed event",
 "After each committed event, the recorded file and position are the end position of the last committed event that has one, or the target of the last committed rotation; events without a position of their own (artificial events) leave it unchanged. "
 "Committing a table definition alone never moves the position, so a resume point never separates a table definition from the row event right after it. The recorded file name changes only on rotation.",
 ["histories", "crash_points"], "all event histories, with rotations, artificial events and heartbeats, and every prefix of them",
 "No test calls commit.",
 ["src/binlog_client.rs"],
 [("update_binlog_position", "src/binlog_client.rs")], state=[("filename, position", "resume coordinates", "BinlogOptions")], observe=["client.options.binlog after each commit"])

prop("C19", "Reconnecting after any fault resumes without losing or repeating work",
 "A consumer that commits each event after processing it and calls replicate again after any failure (connection cut at any byte, server error, consumer restart with the same client) receives every event the server has after its starting point: in file-position mode nothing is skipped and no committed row change or transaction end is delivered again, and in GTID mode every transaction is received whole in one session before it is recorded and no recorded transaction is delivered again. "
 "In GTID mode the resume point depends on the GTID position alone, so that it is also valid on another server after failover.",
 ["fault_sequences", "crash_points", "histories"], "all histories x all sequences of faults at any event or byte, for MySQL and MariaDB, in file-position and GTID mode",
 "No test connects, commits or reconnects.",
 ["src/binlog_client.rs", "src/providers/mysql/mysql_provider.rs", "src/providers/mariadb/mariadb_provider.rs", "src/commands/dump_binlog_command.rs", "src/commands/dump_binlog_gtid_command.rs"],
 [("replicate: reset and re-request", "src/binlog_client.rs"), ("dump requests from the recorded coordinates", "src/providers/")], observe=["event log of a consumer against a mock server that serves from the requested coordinates"])

prop("C20", "Authentication succeeds exactly when the server accepts the credentials",
 "For every user name, password (including the empty one), default database and server challenge, the client's proof is the one mysql_native_password and caching_sha2_password define, so that a correct server accepts it exactly if the password is right: in the direct, plugin-switch, cached and public-key exchanges. "
 "The client reports success only after the server's final OK, reports an error whenever the server refuses, and refuses plugins it does not support.",
 ["inputs", "configurations"], "all users, passwords, databases, challenges, plugins and exchange variants",
 "No test computes a scramble or performs a handshake.",
 ["src/connect.rs", "src/extensions.rs", "src/commands/authenticate_command.rs", "src/commands/auth_plugin_switch_command.rs", "src/responses/handshake_packet.rs", "src/responses/auth_switch_packet.rs"],
 [("encrypt_password", "src/extensions.rs"), ("authenticate/handle_auth_plugin_switch/authenticate_sha_256", "src/connect.rs"), ("AuthenticateCommand::serialize", "src/commands/authenticate_command.rs")],
 observe=["server-side verification in the mock server", "BinlogClient::connect/replicate result"])

prop("C21", "The password never travels in clear over an unencrypted connection",
 "Whatever the server asks for, nothing the client sends over an unencrypted connection reveals the password: it is not in the bytes as such, nor merely masked with values visible on the connection, but only as a challenge-response hash or encrypted with the server's public key. "
 "When TLS is required and the connection is not encrypted, no credential is sent at all.",
 ["inputs", "configurations", "fault_sequences"], "all passwords, server behaviours (honest, downgrading, hostile) and TLS modes",
 "No test performs a handshake or looks at outgoing bytes.",
 ["src/connect.rs", "src/extensions.rs", "src/binlog_client.rs"],
 [("authenticate_sha_256: public-key encryption without TLS", "src/connect.rs"), ("TLS mode checks", "src/connect.rs: authenticate, src/binlog_client.rs: new")],
 observe=["all bytes received by the mock server"])

prop("C22", "Session setup stops at the first refusal and starts only when fully set up",
 "Before requesting the event stream the client configures the session completely: the heartbeat period, checksum awareness, the start position when starting from the end, and for MariaDB the slave capability and the GTID state. "
 "It issues no further command once the server has refused one, reports that refusal as an error with the server's code and message, and never requests the stream in that case. "
 "Each command goes out as one well-formed packet starting a new sequence, only after the reply to the previous one has been consumed.",
 ["fault_sequences", "configurations"], "all refusals at every step of every kind of session (provider x start strategy x auth exchange x blocking mode)",
 "No test opens a session.",
 ["src/binlog_client.rs", "src/configure.rs", "src/connect.rs", "src/providers/mysql/mysql_provider.rs", "src/providers/mariadb/mariadb_provider.rs", "src/packet_channel.rs"],
 [("replicate", "src/binlog_client.rs"), ("set_master_heartbeat/set_master_binlog_checksum/adjust_starting_position", "src/configure.rs"), ("check_error_packet", "src/extensions.rs")],
 observe=["ordered log of commands at the mock server", "replicate result"])

prop("C23", "The dump request asks for exactly the configured starting point",
 "The stream request the server receives denotes exactly the configured start: the first available log, the given file and position, the server's current position when starting from the end (asked once, then kept), or the given GTID position, using the request form of the detected server kind. "
 "It carries the configured server id in blocking mode and asks for non-blocking mode otherwise. A registration carries the configured server id in either mode. A GTID start without the GTID position of the server's kind is refused instead of starting elsewhere.",
 ["configurations", "inputs"], "all start strategies x server kinds and versions x file names, positions, server ids and GTID positions",
 "No test builds a client or a dump request.",
 ["src/binlog_options.rs", "src/binlog_client.rs", "src/configure.rs", "src/providers/mysql/mysql_provider.rs", "src/providers/mariadb/mariadb_provider.rs", "src/commands/dump_binlog_command.rs", "src/commands/dump_binlog_gtid_command.rs", "src/commands/register_slave_command.rs", "src/constants/database_provider.rs"],
 [("BinlogOptions::from_*", "src/binlog_options.rs"), ("replicate_mysql", "src/providers/mysql/mysql_provider.rs"), ("replicate_mariadb", "src/providers/mariadb/mariadb_provider.rs")],
 observe=["dump request decoded at the mock server"])

prop("C24", "A silent server is detected, and a slow but alive one is not mistaken for dead",
 "If the server goes silent at any point after the connection is established, the client reports an error after the heartbeat interval plus a bounded latency allowance of about ten seconds instead of waiting forever. "
 "A server that sends an event or heartbeat within the configured interval never causes a timeout, and the interval requested from the server is exactly the configured one. "
 "The limit applies to every session of a client, including after reconnecting.",
 ["fault_sequences", "configurations", "schedules"], "all heartbeat intervals and all points at which the server can fall silent",
 "No test opens a connection or exercises a timeout.",
 ["src/packet_channel.rs", "src/configure.rs", "src/replica_options.rs", "src/constants/mod.rs"],
 [("read timeout", "src/packet_channel.rs: new"), ("set_master_heartbeat", "src/configure.rs")],
 observe=["BinlogEvents iterator and replicate result against a stalling mock server"])

prop("C25", "Clients, sessions and readers used at the same time do not affect each other",
 "Any number of clients, streams and file readers may be used in one process, alternately in one thread or in parallel threads: each delivers exactly the events of its own server or file, decoded with its own table definitions, checksum setting and log names, and each client's recorded position depends only on what was committed to that client. "
 "Opening, failing or closing one never disturbs another.",
 ["schedules", "histories"], "all sets of clients and readers, all their histories (also with the same table ids and GTID sources), all interleavings of their use",
 "No test has two readers or clients at once.",
 ["src/binlog_client.rs", "src/binlog_events.rs", "src/binlog_reader.rs", "src/events/event_parser.rs", "src/packet_channel.rs", "src/binlog_options.rs"],
 [("state held per reader and stream", "src/events/event_parser.rs: EventParser"), ("position held per client", "src/binlog_client.rs")],
 observe=["iterators and recorded positions of several clients and readers used at once"])

prop("C26", "Every event is delivered as soon as it has arrived",
 "An event, error packet or end of stream is handed to the consumer once its bytes have been received: its delivery never waits for further bytes, a later event, a heartbeat or a timeout. "
 "Starting replication likewise returns as soon as the server has been asked for the stream, without waiting for a first event.",
 ["schedules", "inputs"], "all event kinds and sizes, all splits of a packet into segments, all times between packets",
 "No test reads from a connection.",
 ["src/packet_channel.rs", "src/binlog_events.rs", "src/binlog_client.rs"],
 [("read_packet", "src/packet_channel.rs"), ("BinlogEvents::next", "src/binlog_events.rs")],
 observe=["a mock server that sends each packet only after the previous one was delivered"])

prop("C27", "Long-running use does not accumulate memory or connections",
 "Reading and committing any number of events, in one file or stream or over any number of sessions, does not grow the memory held, apart from what the user keeps, the GTID position itself and one definition per table id seen. "
 "When a stream is dropped, or starting a session failed, its connection is closed; a client that reconnects for ever holds at most the connections still in use.",
 ["histories"], "all histories of any length made of the same tables and servers, and all sequences of sessions however they end",
 "No test reads more than one event or opens a session.",
 ["src/packet_channel.rs", "src/binlog_events.rs", "src/binlog_reader.rs", "src/binlog_client.rs", "src/events/event_parser.rs"],
 [("buffers owned per packet", "src/packet_channel.rs"), ("table map kept per table id", "src/events/event_parser.rs"), ("replicate: new channel per session", "src/binlog_client.rs")],
 observe=["allocator", "end of connection at the mock server"])

prop("C28", "Committing whatever was received is safe",
 "Committing any sequence of events that was decoded, however extreme their values and whatever their order, never panics and leaves a usable position: the file and position are ones that a committed event carried (or the start), the GTID position is in canonical form, still contains the start, and contains nothing but GTIDs that committed events announced. "
 "Starting replication afterwards requests exactly the position held, or reports an error.",
 ["inputs", "histories"], "all sequences of decodable events, including damaged, extreme and misordered ones, in every starting mode",
 "No test commits an event.",
 ["src/binlog_client.rs", "src/providers/mysql/gtid/gtid_set.rs", "src/providers/mysql/gtid/uuid_set.rs", "src/providers/mariadb/gtid/gtid_list.rs", "src/providers/mysql/mysql_provider.rs", "src/providers/mariadb/mariadb_provider.rs"],
 [("commit", "src/binlog_client.rs"), ("add_gtid", "src/providers/")],
 observe=["BinlogClient::commit", "options.binlog after every commit", "dump request at the mock server"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
