#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids stay stable and the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))
NO = "The unit tests never open a connection: "
p("C01","Packets of every size cross the wire byte for byte",
  "Whatever the size of a command or of a server packet (empty, small, exactly at, just around or several times the 16,777,215-byte frame limit), the bytes the server receives are exactly the caller's command cut into maximal frames ended by a shorter (possibly empty) one, and the payload the client hands on is exactly what the server sent. This holds however the transport fragments, delays or buffers reads and writes; everything written has been flushed before the client waits for an answer.",
  ["inputs","schedules"],"all payload sizes and contents in both directions, all ways a transport may split reads and writes",
  NO+"framing, multi-frame packets and partial I/O are not exercised at all.",
  ["src/connection/io.rs","src/connection/mod.rs","src/pool/sync_pool.rs"],
  [("write_packet: chunking, trailing empty frame","src/connection/io.rs"),("read_chunk_to_buf/read_packet_to_buf: reassembly","src/connection/io.rs")],
  observe=["bytes on the exchanged Stream","values returned by query/next"])
p("C02","Frame sequence numbers are produced and enforced",
  "Every command starts a new frame sequence at 0 and each frame, in either direction, carries the next number modulo 256, across any number of frames and throughout the connection phase. A received frame that carries any other number makes the call fail with an out-of-sync protocol error; its contents are never delivered.",
  ["histories","fault_sequences"],"all command histories (including answers of more than 256 packets) and any wrong number at any position",
  NO+"no test sends or receives a frame, let alone 256 of them or a misnumbered one.",
  ["src/connection/io.rs","src/connection/query.rs"],
  [("seq_id compare and wrapping_add","src/connection/io.rs"),("seq_id reset per command","src/connection/query.rs, src/connection/io.rs")],
  state=[("seq_id","next expected/sent frame number","src/connection/mod.rs")], observe=["bytes on the Stream","returned errors"])
p("C03","Every answer belongs to the command that asked for it",
  "For every history of commands on one connection, each call returns the data or the server error of the answer to that very command, no matter how earlier commands ended: result sets dropped at any row, rows that could not be decoded, server errors before or in the middle of rows, statements run through the 'wrong' call (rows where none were expected), answers of several results. A following command never receives, and never loses, a packet of another command's answer.",
  ["histories","fault_sequences"],"all sequences of API calls and all server answers, abandoned at every point",
  NO+"pairing is a property of histories on a live connection.",
  ["src/connection/result_set.rs","src/connection/query.rs","src/connection/prepared_statement.rs","src/connection/io.rs"],
  [("cleanup() drains the unread rest before the next command","src/connection/result_set.rs")],
  state=[("pending_result","an answer has not been read to its end","src/connection/mod.rs")], observe=["API results","bytes written"])
p("C04","A connection that lost its place is never trusted again",
  "Once an exchange was cut short (the caller dropped the future while it waited for the transport, the wait timed out, the transport failed or ended, a frame was out of sequence or an answer could not be understood), no later call on that connection reports success or data from it, and no later command is written into the broken exchange. A connection pool does not hand such a connection out again.",
  ["crash_points","fault_sequences","histories"],"every point at which a call can be cancelled or fail, followed by every further call",
  NO+"needs a fault or a cancellation at each await point followed by reuse.",
  ["src/connection/io.rs","src/connection/mod.rs","src/pool/async_pool.rs","src/pool/pool_item.rs"],
  [("frame and exchange state kept on the connection","src/connection/io.rs"),("return of items to the pool","src/pool/async_pool.rs")],
  observe=["API results after the fault","bytes written after the fault","pool get()"])
p("C05","A result set delivers exactly the server's rows, columns and final status",
  "Iterating a result set (one by one, collect, one, finish, with either the modern or the legacy end-of-rows convention) yields the column descriptions and rows the server sent, each once, in order, and ends exactly where the server ended it; the final packet's status flags and warning count, and an answer without rows' affected rows, last insert id and message, are reported as sent. A server error that takes the place of a row is reported as that server error.",
  ["inputs","histories"],"all result shapes: 0..n columns and rows, both terminator conventions, rows that resemble terminators, errors at any row, any way of consuming them",
  NO+"only the text of date/time literals is parsed by a test.",
  ["src/connection/result_set.rs","src/connection/packets/ok.rs","src/connection/packets/column_def.rs","src/connection/packets/err.rs","src/connection/query.rs"],
  [("terminator detection","src/connection/result_set.rs"),("OkPacket::read_ok/read_eof","src/connection/packets/ok.rs"),("ColumnDef","src/connection/packets/column_def.rs")],
  observe=["ResultSet API","OkPacket accessors"])
p("C06","Text and binary rows decode to the value the server stored",
  "For every supported column type, signedness and position, a value read through a plain query and through a prepared statement is the value the server stored: integers at their limits, floats, byte strings of any length, dates, datetimes and times with and without fractions or sign, and NULL exactly where the server said NULL, for any number of columns. Both protocols give the same value for the same stored value.",
  ["inputs"],"all column types, flags, values, NULL patterns and column counts",
  "The existing tests parse five date/time strings; no row, no NULL bitmap, no integer, no binary value is decoded by any test.",
  ["src/types/value/bin.rs","src/types/value/text.rs","src/connection/types/protocol.rs","src/connection/types/null_bitmap.rs","src/connection/parse_buf.rs"],
  [("deserialize_bin/deserialize_text","src/types/value"),("NullBitmap","src/connection/types/null_bitmap.rs")], observe=["rows returned by next()"])
p("C07","A prepared statement is executed with exactly the caller's parameters",
  "For every list of parameter values the server receives, for the right statement, exactly those values with their types, signedness and NULLs, in order, whatever their number and size; parameters too large for one frame are delivered through the long-data commands with identical contents. A call with a parameter count other than the statement's fails without sending anything.",
  ["inputs","histories"],"all parameter lists (0..many, all value kinds, NULL patterns, sizes beyond one frame), repeated executions",
  NO+"no parameter is ever encoded by a test.",
  ["src/connection/packets/stmt_execute_request.rs","src/connection/packets/stmt_send_long_data.rs","src/types/value/bin.rs","src/connection/prepared_statement.rs","src/connection/io.rs"],
  [("StmtExecuteRequest","src/connection/packets/stmt_execute_request.rs"),("send_long_data","src/connection/io.rs")], observe=["bytes the server receives"])
p("C08","The connection handshake states what was configured and negotiated",
  "For every server greeting and every set of options, the client answers with the configured user, database and packet limit, the proof for the used plugin and the server's nonce, and only protocol capabilities the server offers and the client implements (apart from those that describe fields it actually sends), laid out as these capabilities require; options the response cannot carry (a name with a NUL, a clear password too long for the server's capabilities) are refused. The connection reports the id, version, vendor, capabilities and plugin of the greeting and the server's packet limit, which it asks for unless configured.",
  ["inputs","configurations"],"all greetings (versions, capability subsets, nonce lengths, plugins) and options",
  NO+"no greeting is parsed by a test.",
  ["src/connection/init.rs","src/connection/packets/handshake.rs","src/connection/packets/handshake_response.rs","src/connection/query.rs","src/connection/options.rs"],
  [("HandshakePacket/HandshakeResponse","src/connection/packets"),("capability intersection","src/connection/init.rs"),("read_settings","src/connection/query.rs")], observe=["bytes the server receives","Connection::data()"])
p("C09","Connecting succeeds exactly when the server accepted the login",
  "For every course of the authentication dialogue, connect() returns a connection only after the server's final OK; an error the server sends at any point (also in place of the greeting, after a fast-path success or after the key exchange) is returned as that server error. The dialogue follows the server: at most one plugin switch, answered with the new nonce's proof, an unknown or (when one is enforced) different plugin is refused, and any other answer is an error.",
  ["histories","configurations"],"all server moves at every step of the dialogue, all plugin/option/password combinations",
  NO+"authentication is never run.",
  ["src/connection/auth.rs","src/connection/types/auth_plugin.rs","src/connection/packets/auth_switch_request.rs","src/connection/init.rs"],
  [("continue_auth/perform_auth_switch","src/connection/auth.rs"),("gen_data","src/connection/types/auth_plugin.rs")],
  state=[("auth_switched","a switch already happened","src/connection/data.rs")], observe=["connect() result","bytes the server receives"])
p("C10","The password is never exposed to the wire or a server that must not see it",
  "In every authentication dialogue, including with a server that steers it maliciously, the bytes sent contain the password only as salted hash proofs for the current nonce or encrypted for the server's (or the preconfigured) public key. The plain password is sent only over a transport declared secure, on explicit request of full authentication, or with the clear-text plugin when the options allow clear text.",
  ["histories","configurations"],"all server moves, plugins and options",
  NO+"secrecy is a property of every dialogue a hostile server can choose.",
  ["src/connection/auth.rs","src/connection/types/auth_plugin.rs","src/utils/scramble.rs","src/utils/crypt.rs"],
  [("allow_cleartext_password, SECURE, OAEP encryption","src/connection/auth.rs, src/connection/types/auth_plugin.rs, src/utils/crypt.rs")], observe=["bytes the server receives"])
p("C11","No server input can crash the client",
  "Whatever bytes a server sends at any point (truncated, oversized, empty, of the wrong kind, with impossible lengths, counts, types, texts or keys), every call returns a value or an error: it does not panic, abort or demand memory out of proportion to what was sent. A packet that ends before its declared contents do is reported as an error instead of being presented as data (apart from the optional informational text at the end of an OK packet, which is then left out).",
  ["inputs","fault_sequences"],"every malformed variant of every packet kind in every protocol state",
  NO+"no malformed packet is ever fed to the client.",
  ["src/connection","src/types/value","src/utils/crypt.rs","src/connection/packets"],
  [("checked ParseBuf reads, ProtocolError","src/connection/parse_buf.rs")], observe=["API results","process health"])
p("C12","No exchange waits longer than the configured timeout",
  "Whenever the transport neither delivers nor accepts anything, at any point of the connection phase after the transport was opened, of a command, or of reading its answer, the call ends with a timed-out I/O error once the configured timeout has passed since it began to wait for that transfer, and not before. A transfer that completes within the timeout is never reported as timed out.",
  ["fault_sequences","schedules"],"a stall or delay at every read and write of every exchange, any timeout",
  NO+"no clock or stalled transport appears in a test.",
  ["src/connection/timeout.rs","src/connection/io.rs","src/connection/init.rs"],
  [("Timeout future around each read/write","src/connection/timeout.rs, src/connection/io.rs")], observe=["API results in virtual time"])
p("C13","The connection pool never exceeds its limit and never shares an item",
  "Under every interleaving of concurrent getters, returns, cancellations and failing or slow creations, a pool of size N never has more than N items created or being created at a time, an item is held by at most one user, and an item that was returned intact is reused rather than lost.",
  ["schedules","histories","fault_sequences"],"all interleavings of any number of tasks on one pool",
  "No test uses the pools; the bound depends on races between lock-free operations.",
  ["src/pool/async_pool.rs","src/pool/pool_item.rs"],
  [("compare_exchange on the item counter","src/pool/async_pool.rs"),("ArrayQueue of idle items","src/pool/async_pool.rs")],
  state=[("items","slots in use","src/pool/async_pool.rs"),("pool","idle items","src/pool/async_pool.rs")], observe=["get() results, live item count"], hook="scheduling points at the pool's atomic operations (cfg vp_hooks)")
p("C14","A waiting getter is always woken when an item or a slot is free",
  "In every execution, whenever the pool has an idle item or free capacity, no pending get() stays asleep: each task waiting for the pool is woken and completes once enough items were returned, however its registration interleaves with returns, with other getters, with cancelled getters and with spurious wake-ups.",
  ["schedules","histories"],"all interleavings of waiting, returning, cancelling and waking",
  "No test uses the pool; a lost wake-up needs a particular interleaving.",
  ["src/pool/async_pool.rs"],[("wakers queue","src/pool/async_pool.rs")],
  state=[("wakers","registered waiters","src/pool/async_pool.rs")], observe=["wake-ups, poll results at quiescence"], hook="scheduling points at the pool's atomic operations (cfg vp_hooks)")
p("C15","A failed or abandoned creation gives its pool slot back",
  "When creating an item fails (or panics, and the getter is dropped), or the getter is dropped while its item is being created, the slot becomes available again: after any number of such failures the pool can still create up to N items and tasks waiting for a slot are woken. The failure is reported to the getter whose creation failed and to nobody else.",
  ["fault_sequences","schedules","histories"],"all sequences of failing, cancelled and successful creations",
  "No test uses the pool or makes a creation fail.",
  ["src/pool/async_pool.rs"],[("items counter","src/pool/async_pool.rs")], observe=["get() results after failures"], hook="scheduling points at the pool's atomic operations (cfg vp_hooks)")
p("C16","A recycled buffer is empty, exclusive and bounded",
  "A buffer taken from the synchronous pool is empty, whatever its previous user left in it, and belongs to one holder until it is returned; the pool keeps at most its configured number of buffers, none with more capacity than the configured cap, and items beyond that are released; while there is room a returned buffer is kept, and it is handed out again before a new one is made. Taking and returning buffers concurrently from many threads preserves this. The client's own buffers are such: whatever the size of the packets of an exchange, none of more than 4 MiB stays allocated after it.",
  ["schedules","histories"],"all interleavings and contents of get/return",
  "No test uses the buffer pool.",
  ["src/pool/sync_pool.rs","src/pool/pool_item.rs","src/connection/mod.rs"],[("reset on return","src/pool/sync_pool.rs"),("BUFFER_POOL","src/connection/mod.rs")], observe=["SyncPool::get","live allocations"])
p("C17","Migrating to a version applies exactly the migrations up to it, in order",
  "From any set of already recorded migrations, migrating up, down or to a version runs exactly the missing 'up' steps of versions up to the target in ascending order and the applied 'down' steps of versions beyond it in descending order, each once, and leaves exactly the corresponding records in the database. A migration that is recorded is never run up again and one that is not recorded is never run down.",
  ["histories","inputs"],"all version lists, recorded sets, targets and sequences of migrator calls",
  "No test runs the migrator; it needs a database.",
  ["src/migrator/migrator_inner.rs","src/migrator/migration.rs","src/migrator/model.rs"],
  [("up_to_version/down_to_version","src/migrator/migrator_inner.rs"),("Version ordering","src/migrator/migration.rs")],
  state=[("applied","records known to the migrator","src/migrator/migrator_inner.rs")], observe=["up/down calls, SQL statements, call results"])
p("C18","A failure while migrating loses track of at most the step in flight",
  "If a migration step, a record update or the process fails at any point, the records in the database differ from the steps that completed in at most the one step in flight: no step is recorded as applied before its 'up' succeeded, no record is removed before its 'down' succeeded, the failing call returns the error and runs nothing further. A migrator created afterwards continues from the records.",
  ["crash_points","fault_sequences"],"a failure or crash at every statement of every migration run",
  "No test runs the migrator, let alone with failures.",
  ["src/migrator/migrator_inner.rs"],[("record written after up / deleted after down","src/migrator/migrator_inner.rs")], observe=["SQL statements and up/down calls up to the failure"])
p("C19","Saving a model writes exactly the fields that were set",
  "Inserting or updating through a model issues one statement per record that names exactly the fields that were set, each with its own value (NULL included), restricted to the record's primary key for updates; unset fields are not mentioned and an update without set fields issues nothing. Referenced records to be inserted are inserted first, and the reference column receives their explicit key or else the id the server generated for that very insert.",
  ["inputs","histories"],"all combinations of set/unset/inserted fields, nested references and server-generated ids",
  "The only model test compares two SELECT strings; nothing is inserted or updated.",
  ["src/model/active_model","macros/src/lib.rs"],
  [("into_values/insert_named_value","src/model/active_model, macros/src/lib.rs"),("into_insert/into_update","src/model/active_model/named_value.rs")], observe=["statements and parameters the server receives","returned ids"])
p("C20","A model query maps every selected column back to its own field",
  "For every model (plain, embedded-struct and arbitrarily nested reference fields, equal field names at different levels, the same table referenced more than once), the generated query selects each field's column exactly once under the alias path of its record and joins every referenced table on its key; rows come back with every column in its own field, whatever the order of the columns and whatever additional columns (that are not named like a field of that record) there are. A row that lacks a field's column is an error, never a value from another record's column. A field's column has the field's name (without the mark of a raw identifier); the model's table, key and whether the key is generated are those declared.",
  ["inputs","programs"],"all model shapes, column orders, missing/additional columns",
  "One test compares the SELECT text of one two-level model; mapping rows to fields is never run.",
  ["src/model/into_query.rs","src/model/from_query_result.rs","macros/src/lib.rs"],
  [("build_query","src/model/into_query.rs"),("set_mapping by table alias","src/model/from_query_result.rs, macros/src/lib.rs")], observe=["query text","decoded structs"])
p("C21","Escaped strings and identifiers are read by SQL as exactly the original",
  "For every text, the escaped-string form is, to the server's lexer (default SQL mode), one string literal whose value is exactly that text, and the escaped-identifier form is one quoted identifier whose name is the text without trailing blanks and without characters that identifiers cannot contain; no input can end the literal early. The unquoted form consists only of characters allowed unquoted and keeps all of those, in order.",
  ["inputs"],"all texts, in particular all combinations of quotes, backslashes, control characters and non-BMP characters",
  "The tests compare about twenty fixed strings.",
  ["src/types/value/text.rs"],[("write_escaped_chars","src/types/value/text.rs"),("IdentifierEscape","src/types/value/text.rs")], observe=["Display output"])
p("C22","A value formatted into SQL is a literal of that same value",
  "The textual form of every value (NULL, all integer widths, finite floats, byte strings of any content including none, dates, times with sign and fraction, datetimes) is exactly one SQL literal that denotes that value, and parsing the date, time and datetime texts the server prints for it yields it again.",
  ["inputs"],"all values",
  "The tests format about ten fixed values.",
  ["src/types/value/text.rs","src/types/hex.rs"],[("Display for Value","src/types/value/text.rs")], observe=["Display output"])
p("C23","Rust values survive the conversion to and from database values",
  "Converting any supported Rust value (integers, floats, bool, strings, bytes, hex, dates, datetimes, durations of either sign with microseconds, and their optional forms) to a database value and back yields the same value, NULL corresponds to None and to nothing else, and a database value of another kind or outside the Rust type's range is refused with an error rather than altered (a number read as bool is only covered for 0 and 1, durations up to the days a time value can hold, a datetime read as a date is refused or gives its date). A hexadecimal text, with or without 0x, is read as exactly the bytes it spells, and anything else is refused.",
  ["inputs"],"all values of all supported types, all kinds of database values, all texts",
  "No conversion test exists.",
  ["src/types/value/conversion.rs","src/types/hex.rs","src/types/value/mod.rs"],[("From/TryFrom/TryInto for Value","src/types/value/conversion.rs")], observe=["conversion results"])
p("C24","A dropped prepared statement is closed on the server",
  "Every statement the client prepared is closed on the server exactly once after its handle was dropped, at the latest together with the next command on that connection and before that command; a statement whose handle is alive is never closed, and closing disturbs no other exchange.",
  ["histories"],"all histories of preparing, executing, abandoning results and dropping statements",
  NO+"statement lifetime needs a history on a live connection.",
  ["src/connection/prepared_statement.rs","src/connection/packets/stmt_close.rs","src/connection/io.rs"],
  [("StmtClose command","src/connection/packets/stmt_close.rs")], observe=["commands the server receives"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
