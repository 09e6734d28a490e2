SIM = 'path-sensitive interprocedural property simulation over LLVM IR'
TRUST = ('Sound up to the abstraction of the simulator: all paths of the handlers with resolved function-pointer tables are covered, loops are generalised at their back edges; '
         'trusted: clang -O0 IR, the effect table of libc functions, that heap objects of different struct types do not overlap. ')

prop('P01', 'A data file only ever grows: no write reaches bytes already written',
     '''Once a record was stored in a data file none of its bytes is ever changed, moved or cut off by the running server: data files are only appended to,
     whatever commands, restarts, reloads, rotations or failed writes happened before. Only the fixed file header is (re)written at the start of the file, when the file is created or opened.''',
     ['histories', 'crash_points', 'inputs'], 'every history of commands and restarts, every data file',
     'tests look at values read back after a few commands; a write at a wrong position shows only with particular sequences of rotation, reload and failure',
     ['libzdb/data.c', 'libzdb/index.c'], [('append-only descriptor of the active data file', 'libzdb/data.c data_open_final, data_initialize'), ('record append', 'libzdb/data.c data_insert, data_delete')],
     'whole-program descriptor-provenance analysis (flow of open() results to write sites, open flags, typestate of the header writer)',
     'Decides the structural guarantee (append mode on the only descriptor used for record writes, no truncating or positioned operation on data files); trusts O_APPEND semantics of the kernel.')

prop('P02', 'The index never refers to a data record that was not completely written',
     '''SET, SETX and DEL write a record to the index only after all bytes of the data record they belong to were written, and write no index record when writing the data failed or was
     cut short. When they report success, either both records were written or (nothing to change) neither.''',
     ['crash_points', 'fault_sequences', 'inputs'], 'every crash point between two writes and every failing or short write of a command',
     'tests never crash the server between two writes nor make a write fail',
     ['libzdb/data.c', 'libzdb/index_set.c', 'libzdb/index.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c'],
     [('data_insert before index_set', 'zdbd/commands_set.c'), ('data_delete before index_entry_delete', 'zdbd/commands_dataset.c')],
     SIM + ', write outcomes forked', TRUST + 'Every write of a data or index file is split into complete, failed and short.')

prop('P03', 'A write that failed or was cut short is never acknowledged',
     '''When any write to a data or index file needed by a SET, SETX or DEL fails or writes only a part (disk full, I/O error), the client gets an error reply, in key-value and sequential mode.
     (Flagging the superseded record of an overwritten key is redundant and exempt.)''',
     ['fault_sequences', 'inputs', 'configurations'], 'every write call of the three commands failing or short, both modes',
     'tests run on a healthy disk; no write ever fails in them',
     ['libzdb/data.c', 'libzdb/index.c', 'libzdb/index_set.c', 'libzdb/index_seq.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c'],
     [('status of data_write/index_write propagated to the handler', 'libzdb/data.c, libzdb/index.c')],
     SIM + ', write outcomes forked', TRUST)

prop('P04', 'With sync enabled a write is on stable storage before it is acknowledged',
     '''When the server runs with the sync option, every file written by SET, SETX or DEL (data file, active index file, and an older index file whose record is flagged or rewritten) has been
     synced after the write when the success reply is queued.''',
     ['crash_points', 'histories', 'configurations'], 'every power loss right after an acknowledgement, both modes, current and older index files',
     'a missing fsync cannot be seen by any test that does not cut the power',
     ['libzdb/data.c', 'libzdb/index.c', 'libzdb/bootstrap.c'], [('data_sync_check, index_sync_check', 'libzdb/data.c, libzdb/index.c'), ('sync setting copied to each data and index root', 'libzdb/data.c data_init, libzdb/index_loader.c')],
     SIM + ' with the sync option assumed', TRUST + 'The time based sync option (--synctime) is outside the property.')

prop('P05', 'Overwriting a key keeps the old version valid until the new one is stored',
     '''When SET overwrites an existing key, the index record of the old version on disk is marked superseded only after the record of the new version was appended to the index; in key-value mode the
     in-memory entry used by readers is changed only after that too. A crash or write failure at any point therefore leaves either the old or the new version.''',
     ['crash_points', 'fault_sequences'], 'every crash point and every failing write during an overwrite',
     'tests overwrite keys on a healthy disk and never crash in between',
     ['libzdb/index_set.c', 'libzdb/index.c', 'libzdb/index_seq.c'], [('append, then flag, then update memory', 'libzdb/index_set.c')],
     SIM + ', write outcomes forked', TRUST)

prop('P06', 'Read-only sessions and locked or frozen namespaces are never modified',
     '''A client whose session has no write access to its namespace, and any client (administrators too for SET, SETX, DEL and FLUSH) using a namespace that is locked or frozen, cannot through any
     command write, truncate, create or remove a data, index or descriptor file nor change namespace or index state. Administrative commands of an administrator are exempt.''',
     ['inputs', 'histories'], 'every command of the command table with every argument vector in such a session',
     'tests try SET and DEL only; the guarantee is about every command and every branch of every handler',
     ['zdbd/commands.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c', 'zdbd/commands_namespace.c'],
     [('writable and lock checks of each handler', 'zdbd/commands_set.c, zdbd/commands_dataset.c')],
     SIM + ' with the gate assumed closed', TRUST)

prop('P07', 'A frozen namespace discloses no entry',
     '''While a namespace is frozen no data command (SET GET MGET DEL EXISTS CHECK SCAN SCANX RSCAN KSCAN HISTORY KEYCUR LENGTH KEYTIME FLUSH), for any arguments and any client, reads an index entry, an index file or a data file of it.''',
     ['inputs', 'histories'], 'every data command and argument vector on a frozen namespace',
     'tests try three commands on a frozen namespace',
     ['zdbd/commands_get.c', 'zdbd/commands_scan.c', 'zdbd/commands_history.c', 'zdbd/commands_dataset.c'],
     [('namespace_is_frozen check of each handler', 'zdbd/commands_*.c')], SIM + ' with the gate assumed closed', TRUST)

prop('P08', 'Entries of a worm namespace are never overwritten, deleted or flushed',
     '''In a namespace in worm mode SET, SETX and DEL of a key that exists write nothing, whatever mode the namespace uses and whoever the client is, and FLUSH removes nothing.
     No command of a client without administrator rights changes the settings of a worm namespace.''',
     ['inputs', 'histories', 'configurations'], 'every mutating command, argument vector and index mode',
     'tests cover one overwrite and one delete in one mode',
     ['zdbd/commands_set.c', 'zdbd/commands_dataset.c', 'zdbd/commands_namespace.c'], [('worm checks', 'zdbd/commands_set.c, zdbd/commands_dataset.c')],
     SIM + ' with worm mode assumed and the lookup forked', TRUST)

prop('P09', 'Administrative effects need administrator rights',
     '''A client that did not authenticate as administrator gets only errors from NSNEW NSDEL NSSET NSJUMP RELOAD HOOKS INDEX DATA MIRROR MASTER and from SET or DEL with an explicit timestamp; no other command
     lets it create or remove namespaces, change namespace settings, or become a mirror, master or administrator (AUTH with the password apart).''',
     ['inputs'], 'every command and argument vector sent by a client without administrator rights',
     'tests try each admin command once with one argument vector',
     ['zdbd/commands.c', 'zdbd/commands_namespace.c', 'zdbd/commands_system.c', 'zdbd/commands_dataset.c', 'zdbd/commands_replicate.c'],
     [('command_admin_authorized', 'zdbd/commands.c')], SIM + ' with the admin flag assumed clear', TRUST)

prop('P10', 'Stored passwords are disclosed to nobody but a master replica',
     '''No command handler passes the stored password of a namespace or the administrator password to a reply or into a string that could be sent, unless the session is a master replication session.''',
     ['inputs'], 'every command, argument vector and session kind',
     'tests never look for the password in replies',
     ['zdbd/commands_namespace.c', 'zdbd/commands_auth.c'], [('NSINFO prints the password for master sessions only', 'zdbd/commands_namespace.c')],
     SIM + ' (taint of the stored password)', TRUST + 'The challenge digest of the secure authentication is the one permitted use.')

prop('P16', 'Every request is answered exactly once',
     '''Each command handler queues exactly one reply on every path, error paths and memory exhaustion included (array replies: one header, then one reply per element); a client put on WAIT is answered later.
     The dispatcher runs one handler or queues one reply for every request.''',
     ['inputs', 'fault_sequences'], 'every command, argument vector and failing allocation or write',
     'a missing or doubled reply on an error path desynchronises the connection but needs a failing allocation or an odd argument to show',
     ['zdbd/commands.c', 'zdbd/commands_*.c', 'zdbd/redis.c'], [('each exit of a handler replies', 'zdbd/commands_*.c'), ('redis_dispatcher', 'zdbd/commands.c')],
     SIM + ' (reply-counting automaton)', TRUST + 'Counts calls that queue a reply; that the queued bytes reach the socket is outside.')

prop('P11', 'A session gains rights only by presenting the matching password or challenge',
     '''A client becomes administrator only when AUTH was given the administrator password or the digest of it with the challenge of this session; it gets write access to a protected namespace through
     SELECT only when the namespace has no password, it is administrator, or it gave the password or the digest. A challenge is used for at most one attempt, and passwords are compared over their whole length.''',
     ['inputs', 'histories'], 'every argument vector of AUTH and SELECT and every other command, in every session state',
     'tests try a right and a wrong password; a prefix, an empty or a replayed answer is one of infinitely many',
     ['zdbd/commands_auth.c', 'zdbd/auth.c', 'zdbd/commands_namespace.c', 'libzdb/security.c'],
     [('password comparison', 'zdbd/commands_auth.c, zdbd/commands_namespace.c'), ('challenge generation and consumption', 'zdbd/auth.c, libzdb/security.c')],
     SIM + ' with comparison outcomes forked; who-writes analysis of the rights fields', TRUST + 'The strength of the digest and of the random source are outside.')

prop('P13', 'Keys and names longer than their length field are refused, never truncated',
     '''No command and no call of the library api stores or looks up a key or name under a length that was cut to the 8 or 16 bits of a stored field: a longer argument is answered with an error before.''',
     ['inputs'], 'every command with arguments of every length up to the request limit, every library call with a key',
     'tests use keys of a handful of lengths',
     ['zdbd/commands_set.c', 'zdbd/commands_get.c', 'zdbd/commands_history.c', 'zdbd/commands_dataset.c', 'libzdb/api.c'],
     [('MAX_KEY_LENGTH checks', 'zdbd/commands_*.c, libzdb/api.c')], SIM + ', intervals of argument lengths at narrowing conversions', TRUST)

prop('P15', 'Commands never use arguments or bytes that were not sent nor overrun a buffer',
     '''No command, whatever its number of arguments and their lengths, uses an argument beyond the number sent, reads beyond the bytes of an argument (arguments are not terminated), or copies or prints
     an argument beyond the end of a local buffer or of a block it allocated.''',
     ['inputs'], 'every command with every number and length of arguments',
     'tests send well formed commands; the breaking length is one value out of millions',
     ['zdbd/commands.c', 'zdbd/commands_set.c', 'zdbd/commands_get.c', 'zdbd/commands_dataset.c', 'zdbd/commands_namespace.c', 'zdbd/commands_system.c', 'zdbd/commands_scan.c', 'zdbd/commands_history.c'],
     [('argument count and length checks of each handler', 'zdbd/commands_*.c')], SIM + ', linear arithmetic over intervals of argument counts and lengths',
     TRUST + 'Writes whose position depends on a loop or on an unbounded string of the server are counted as not decided.')

prop('P17', 'Replies reach a client completely and in order however slow it reads',
     '''However the socket accepts data (partly, not at all for a while, one byte at a time), the bytes given to it for a client are the queued replies in the order they were queued, each complete and without
     repetition: what could not be sent stays queued after earlier replies, is resumed exactly where it stopped, and leaves the queue only when sent completely or when the connection is lost.''',
     ['schedules', 'fault_sequences', 'inputs'], 'every sequence of outcomes of send and every backlog',
     'tests read their replies at once over the loopback, send never takes a part only',
     ['zdbd/redis.c'], [('response queue', 'zdbd/redis.c redis_response_push, redis_send_response, redis_delayed_write'), ('reply functions', 'zdbd/redis.c redis_reply_heap, redis_reply_stack')],
     SIM + ', outcomes of send forked, linear arithmetic over positions and lengths', TRUST + 'That the event loop calls the delayed writer again when the socket is writable is outside.')

prop('P20', 'A request runs the command it names and no other',
     '''A command runs, or is waited for by WAIT, only if the name argument is exactly (whole length, letter case apart) the name of its table entry: an empty name, a prefix, an extended or different name never runs
     or matches anything. The handler that runs is the one of the entry recorded as executed for the client, and command names are unique.''',
     ['inputs'], 'every name argument of any length and content',
     'tests send correct names and one unknown name',
     ['zdbd/commands.c'], [('command matching', 'zdbd/commands.c redis_dispatcher, command_wait')],
     SIM + ' with the relation between argument and table name assumed', TRUST)

prop('P14', 'Received bytes are parsed exactly once, in order, within bounds',
     '''However the bytes of requests are split over reads (any chunk sizes, any number of pipelined requests, any malformed header), the parser never reads or writes outside the receive buffer, the list of arguments
     or the memory of an argument, parses numbers from terminated data only, stores every received payload byte once and in order in the argument it belongs to, and executes a request only when all its arguments are complete.''',
     ['inputs', 'schedules'], 'every byte stream from a client and every way it is split over reads',
     'tests send whole requests which arrive in one piece; a split inside a header or payload at the end of a full buffer is one of very many',
     ['zdbd/redis.c'], [('read loop', 'zdbd/redis.c redis_chunk_read'), ('parser states', 'zdbd/redis.c redis_handle_resp_empty, redis_handle_resp_header, redis_handle_resp_payload'), ('buffer', 'zdbd/redis.c buffer_reset, buffer_shift')],
     SIM + ' with a proved loop invariant over buffer, argument list and argument (linear inequalities)', TRUST + 'Enormous allocations are assumed to be refused by the allocator.')

prop('P18', 'A removed namespace is never used again by a session',
     '''When a namespace is removed, every session that uses it (and no other) is detached from it before its memory is released, and its slot in the list of namespaces is cleared; NSDEL refuses the namespace of its caller.
     A request of a detached session runs no command and touches no namespace: it gets exactly one reply and the session is disconnected.''',
     ['histories', 'inputs'], 'every number of sessions, every session state and every request after a removal',
     'tests delete a namespace nobody else uses; use after free shows only with a second session on it',
     ['libzdb/namespace.c', 'zdbd/commands.c', 'zdbd/commands_namespace.c', 'zdbd/redis.c'],
     [('namespace_delete, namespace_kick_slot', 'libzdb/namespace.c'), ('redis_detach_clients', 'zdbd/redis.c'), ('command_nsdel', 'zdbd/commands_namespace.c'), ('dispatcher without namespace', 'zdbd/commands.c')],
     SIM + ', induction over the list of clients', TRUST)

prop('P19', 'Nothing runs after a connection or the server ended; nothing received is left',
     '''After a request whose status ends the connection or stops the server, after the peer closed, and after a malformed request was answered, nothing more is executed or received from that client and the client is released (or the server
     stops). Only STOP ends the server, no other request or client behaviour does. Otherwise everything received is processed before the server waits again (events are edge-triggered).''',
     ['inputs', 'schedules'], 'every sequence of requests in a buffer, every outcome of recv',
     'tests send one request at a time and close the connection politely',
     ['zdbd/redis.c', 'zdbd/socket_epoll.c', 'zdbd/commands.c'], [('read loop', 'zdbd/redis.c redis_chunk_read'), ('event loop', 'zdbd/socket_epoll.c')],
     SIM + ', statuses of handlers and outcomes of recv forked', TRUST)

prop('P38', 'A deleted key is answered like a key that never existed',
     '''When the record of a key carries the deleted flag (in memory, or on disk in sequential mode), GET MGET EXISTS CHECK LENGTH KEYTIME KEYCUR HISTORY (of the key) and DEL answer absent or an error,
     never data, a positive answer or a cursor, and DEL writes nothing; SCAN SCANX RSCAN never list it. The library calls get, exists, check and del do the same.''',
     ['histories', 'inputs'], 'every command and library call that looks up a key whose record is flagged deleted, both modes, any other flag bits',
     'tests delete one key and read it back with GET and EXISTS; the other commands, modes and flag combinations are not sampled',
     ['libzdb/index_get.c', 'libzdb/index_scan.c', 'libzdb/api.c', 'zdbd/commands_get.c', 'zdbd/commands_dataset.c', 'zdbd/commands_scan.c', 'zdbd/commands_history.c'],
     [('deleted check of the lookup', 'libzdb/index_get.c index_get'), ('deleted check of the scans', 'libzdb/index_scan.c'), ('flag of the sequential lookup', 'libzdb/index_get.c index_get_handler_sequential')],
     SIM + ' with the deleted flag assumed set', TRUST + 'HISTORY with an exact cursor addresses old versions and is exempt.')

prop('P45', 'Reads answer exactly the record the key designates',
     '''GET and MGET answer the payload bytes that lie in the data file and at the offset of the entry found for the key (behind header and key), completely read, with the length of that entry, as a well-formed bulk reply;
     MGET looks every argument up once, in order, and announces as many replies. EXISTS answers 1 exactly when the lookup finds an entry, LENGTH and KEYTIME its length and timestamp, CHECK 1 exactly when the checksum of
     the stored payload is the one in its header, 0 otherwise, also when the payload cannot be read. The key looked up is the (uncut) key of the request in the namespace selected. An absent key is answered as absent (nil, or 0 for EXISTS), a key that exists
     never is, and an error is replied only when reading or allocating failed. The same holds for the status and payload returned by zdb_api_get, zdb_api_exists and zdb_api_check.''',
     ['inputs', 'histories', 'fault_sequences'], 'every key, every entry found (any file, offset, lengths and mode), every failing open, read or allocation',
     'tests read small values back from the active file, without read failures; another file, an empty entry or a short read are not sampled',
     ['zdbd/commands_get.c', 'zdbd/commands_dataset.c', 'zdbd/redis.c', 'libzdb/data.c', 'libzdb/api.c'],
     [('read of the payload', 'libzdb/data.c data_get, data_check'), ('answers', 'zdbd/commands_get.c, zdbd/commands_dataset.c'), ('bulk reply', 'zdbd/redis.c redis_bulk'), ('library', 'libzdb/api.c zdb_api_get')],
     SIM + ': which bytes of which file reach which memory is kept symbolically, and each reply is put together as a stream of tokens', TRUST + 'That the lookup returns the right entry is not part of it.')

prop('P43', 'Lookups return the entry of exactly the key asked for',
     '''A lookup answers the entry whose key has the same length and the same bytes (all of them) as the key asked for, in the namespace asked; in key-value mode no entry is passed over that does not differ, and absent is
     answered only at the end of the list the key belongs to. Insertion, lookup and removal choose that list by the same function of the whole key; inserting adds the new entry and keeps the others, removing an entry removes that one only.
     In sequential mode the record is read completely, from the position its id is mapped to, has to carry exactly the id asked for, and the entry returned is that record. A deleted entry is not returned.''',
     ['inputs', 'histories'], 'every key (any length, colliding checksums included), every list of entries, every map of ids to files',
     'tests use few short keys, which practically never share a list, and never an id that no record has or that exceeds 32 bits',
     ['libzdb/index.c', 'libzdb/index_get.c', 'libzdb/index_branch.c', 'libzdb/index_set.c', 'libzdb/index_seq.c'],
     [('lookup', 'libzdb/index.c index_entry_get, libzdb/index_get.c'), ('lists', 'libzdb/index_branch.c'), ('position of an id', 'libzdb/index_seq.c')],
     SIM + ': each entry passed must have been shown to differ, each entry returned to be equal; list updates against the list before', TRUST + 'The search in the map of ids to files is not proved to find the file of an id (a wrong one answers absent, never another record), nor that callers of index_branch_remove pass the entry in front.')

prop('P44', 'Loading an index rebuilds exactly what its records say',
     '''When a namespace is loaded, each index file is read from its start and each of its records in turn, from behind the header, where the one before ends: in key-value mode the entry left in memory has the key, namespace,
     length, offset, flags, timestamp, checksum and parent of the record, and its index file, data file and position; an older version of the key is replaced; the key of a record flagged deleted is absent. In sequential mode each record
     counts as one id and the file is mapped to the first id it holds. New records are linked to the last one loaded. A record that was not written completely (crash, full disk) is never interpreted nor read beyond the end of the file,
     and it does not stay in front of records written later: it is cut off when loading, and taken back when the write fails. An empty index file left by a crash gets its header before it is used.''',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'], 'every index file contents, every prefix of a record at its end, every failing or partial write',
     'tests reload only complete files written by a server that ended regularly',
     ['libzdb/index_loader.c', 'libzdb/index_set.c', 'libzdb/index.c'],
     [('loading', 'libzdb/index_loader.c index_load_file, index_internal_load'), ('memory', 'libzdb/index_set.c index_set_memory'), ('append', 'libzdb/index_set.c index_append_entry_on_disk')],
     SIM + ': each load of a record is shown to lie inside the contents by the comparisons on its path, each iteration is compared with the record it consumed', TRUST + 'A crash is taken to leave a prefix of the last append; other damage to files is not considered.')

prop('P30', 'A stored record, its index record and memory agree',
     '''When SET, SETX or DEL (or zdb_api_set, zdb_api_del) is acknowledged, in both modes: the data record announces the key and payload length actually written, carries the key and payload of the request and the checksum
     of that payload; the index record carries the same key, length, checksum and timestamp, the position and number of the data file the record was written to, a link to the version it supersedes and a link to the record
     appended before; the entry in memory (key-value) says the same as the index record and where that record lies. The superseded record is flagged deleted or kept as a deleted copy (sequential). A deletion writes a flagged
     data record of the key and flags its index record. In sequential mode a new record gets the next id, which advances once for each appended index record, an existing one is overwritten at its own place, a new index file is
     mapped to its first id, and the reply of SET carries the id or key stored. Rotation gives data and index file the same number.''',
     ['inputs', 'histories'], 'every key and payload, every existing entry, every file rotation between them, both modes',
     'tests write and read back small records in one file; wrong links, checksums, positions, file numbers or memory copies show only after a rotation, a reload or a walk through history',
     ['libzdb/data.c', 'libzdb/index.c', 'libzdb/index_set.c', 'libzdb/index_seq.c', 'libzdb/index_branch.c', 'libzdb/api.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c'],
     [('data records', 'libzdb/data.c data_insert'), ('index records', 'libzdb/index.c index_append_entry_on_disk, index_entry_delete_disk'), ('insertion and update', 'libzdb/index_set.c'), ('commands', 'zdbd/commands_set.c, zdbd/commands_dataset.c')],
     SIM + ': every written buffer is taken apart into record fields, which are compared symbolically', TRUST + 'Agreement is decided between the values handed to the calls; that the disk returns what was written is trusted.')

prop('P42', 'A SET is left out as unchanged only when the same data is stored',
     '''SET, SETX and zdb_api_set answer that nothing changed (nil, up to date) without writing only when the lookup found a live entry of the key and its stored payload was read completely from the place of its record and
     compared equal, over its whole length, with the new payload, both having the same length: neither an equal checksum or length alone, nor a payload that could not be read, is enough. Every other accepted SET is written: a SET is
     acknowledged only after its data and its index record were stored, and the entry replaced in the index is the one the lookup returned for the key (none when it found none).''',
     ['inputs', 'histories', 'fault_sequences'], 'every key, old and new payload, every failing read, write or allocation, both modes',
     'tests store few different payloads; payloads with the same checksum, of different length with a common prefix, unreadable or in another file are not sampled',
     ['zdbd/commands_set.c', 'libzdb/api.c', 'libzdb/data.c'],
     [('comparison', 'zdbd/commands_set.c data_compare_matching, libzdb/api.c api_set_matching'), ('writes', 'zdbd/commands_set.c redis_set_handlers, libzdb/api.c api_set_handlers')],
     SIM + ': each answer is judged with the bytes read, the comparisons made and the writes done on its path', TRUST + 'What data_insert and index_set write is P30, when they report success P03.')

prop('P37', 'The size limit of a namespace holds and is counted exactly',
     '''When a namespace has a maximum size, the data of a SET (also SETX, zdb_api_set) is written only when the payload bytes counted, minus the payload of the version replaced, plus the new payload do not exceed it; administrators
     are no exception. What is counted (live keys, live payload bytes) changes exactly with what is stored, in both modes: a SET of a new key adds one key and its payload length, an update adds the difference of the lengths and no key, a
     deletion takes one key and its payload length away, an operation that fails before its record is written changes neither.''',
     ['inputs', 'histories', 'fault_sequences'], 'every length, every existing entry, every counter value below 2^62, every failing write, both modes',
     'tests fill one small namespace with equal payloads; limits met by updates of another length, after deletions or failed writes are not sampled',
     ['zdbd/commands_set.c', 'zdbd/commands_dataset.c', 'libzdb/api.c', 'libzdb/index_set.c', 'libzdb/index.c'],
     [('limit', 'zdbd/commands_set.c command_set, libzdb/api.c zdb_api_set'), ('counting', 'libzdb/index_set.c, libzdb/index.c index_entry_delete_memory')],
     SIM + ': at the insertion a linear inequality has to follow from the comparisons of the path; at the end the counters are compared with their values before', TRUST + 'Counting while an index is loaded is not part of it.')

prop('P31', 'The settings of a namespace survive a restart',
     '''NSSET answers OK to a change of the password, size limit, public or worm setting only after the descriptor of the namespace was written completely, with these settings, and synced; NSNEW and the start use a namespace
     only when its descriptor was completely written (new) or completely read, with a supported version. What is read back is what was written: size limit, public and worm flags, and the whole password at the place where it
     was written. A descriptor that cannot be read or written completely, or memory that is missing, never turns into a namespace without password or with other settings.''',
     ['inputs', 'histories', 'fault_sequences'], 'every setting, name and password length, every failing or short read, write, open or allocation',
     'tests set and restart once on a working disk; a full disk, a truncated descriptor or an unreadable password are not sampled',
     ['libzdb/namespace.c', 'zdbd/commands_namespace.c'],
     [('writing', 'libzdb/namespace.c namespace_descriptor_update, namespace_commit'), ('reading', 'libzdb/namespace.c namespace_descriptor_load'), ('command', 'zdbd/commands_namespace.c command_nsset')],
     SIM + ': written and read bytes are compared with the settings in memory, field by field and bit by bit', TRUST + 'A crash while the descriptor is rewritten is not covered.')

prop('P12', 'A namespace stays inside its own directories',
     '''Every name that becomes a directory below the configured data and index directories (NSNEW, and the directories found at the start) is not empty, not ".", not ".." and has no slash; NSNEW cannot take the name of the default
     namespace. Directories are removed recursively only for a namespace that is deleted or flushed, only its own ones, and without following symbolic links; nothing else in the file system is removed except what the walk of these
     directories finds and the configured socket.''',
     ['inputs'], 'every name a client sends, every directory entry',
     'tests try a few names; the dangerous ones (empty, dots, slashes, links) have effects outside of the directories tests look at',
     ['libzdb/namespace.c', 'libzdb/filesystem.c', 'zdbd/commands_namespace.c'],
     [('names', 'libzdb/namespace.c namespace_valid_name, namespace_path'), ('removals', 'libzdb/filesystem.c zdb_dir_remove, zdb_dir_clean_payload')],
     SIM + ': the tests made on the path to the construction of the directory name; query over the removal calls', TRUST + 'Links made by somebody else inside the configured directories are trusted when files are opened.')

prop('P41', 'NSDEL, FLUSH and RELOAD drop exactly their namespace, in a safe order',
     '''NSDEL: the clients of the namespace are detached first, its keys leave the index in memory, then index, data and the namespace itself are freed and both its directories removed. FLUSH: keys dropped, payload files (never the
     descriptor) removed from both its directories, an empty index and data loaded, mode and settings kept. RELOAD: keys dropped, index and data loaded again, no file removed, settings kept. No freed object is used, none is freed
     twice, nothing of another namespace is dropped or removed; the answer is OK only after all of it.''',
     ['inputs', 'histories'], 'every path of the three commands, every namespace, every content',
     'tests flush or delete one namespace and look at it; a dangling entry, a removed descriptor or another namespace losing keys shows only later or elsewhere',
     ['libzdb/namespace.c', 'libzdb/filesystem.c', 'libzdb/index.c', 'zdbd/commands_namespace.c'],
     [('commands', 'zdbd/commands_namespace.c command_nsdel, command_flush, command_reload'), ('operations', 'libzdb/namespace.c namespace_delete, namespace_flush, namespace_reload'), ('files', 'libzdb/filesystem.c dir_clean_cb')],
     SIM + ': typestate of the namespace, its index, its data, its keys and its clients', TRUST + 'The lists of keys themselves are P46.')

prop('P46', 'The lists of the in-memory index keep every other key',
     '''Adding a key appends it to the list of its bucket, deleting a key or dropping a namespace unlinks and frees exactly the entries concerned, in every position: all other entries stay in the list, in order, the end of the list is its
     last entry (so that later keys are found), the length is the number of entries, nothing freed is read, freed twice or left in the list.''',
     ['histories'], 'every list of up to three entries with every position and every choice of namespaces; longer lists behave alike as operations look at neighbours only',
     'tests have almost no collisions in a bucket (2^24 buckets): lists with more than one entry are not exercised at all',
     ['libzdb/index_branch.c', 'libzdb/index.c'],
     [('lists', 'libzdb/index_branch.c index_branch_append, index_branch_remove, index_branch_get_previous'), ('deletion', 'libzdb/index.c index_entry_delete_memory'), ('namespace', 'libzdb/index.c index_clean_namespace')],
     'shape enumeration by abstract interpretation of the LLVM IR (every operation on every small list, all branches decided by the shape)', TRUST + 'Concluding from lists of three entries to longer ones is argued, not mechanised.')

prop('P47', 'Every namespace is listed and found exactly once',
     '''A namespace created (NSNEW or found at the start) takes a free or a new slot of the list and no other namespace moves; one deleted leaves only its own slot; the walk over the list (NSLIST, SELECT, NSINFO, the start and the stop) starts with
     the default namespace and meets each one exactly once, and their counted number (the header of NSLIST, INFO) is the number of them.''',
     ['histories'], 'every list of up to three slots, each used or free, with a failing allocation',
     'tests create and delete few namespaces in one order; free slots in the middle and failing allocations are not sampled',
     ['libzdb/namespace.c'],
     [('creation', 'libzdb/namespace.c namespace_create, namespace_push'), ('deletion', 'libzdb/namespace.c namespace_delete, namespace_kick_slot'), ('walk', 'libzdb/namespace.c namespace_iter, namespace_iter_next, namespace_length')],
     'shape enumeration by abstract interpretation of the LLVM IR (every operation on every small list, all branches decided by the shape)', TRUST + 'Concluding from three slots to more is argued, not mechanised.')

prop('P48', 'SCAN and RSCAN meet every live record once, over deletions and file ends',
     """From the place of a record SCAN goes to the record directly behind it, at the end of an index file to the first record of the next file, and RSCAN follows the link of the record to the one before it, in the
     same file or an older one, passing over index files without a record. Deleted records are passed, the record of the cursor is not answered again, a live record is never left out. What is handed over is the
     record read, with its id, index file and position, and the end is answered only when no record can follow.""",
     ['histories', 'inputs'], 'every sequence of live and deleted records, file ends, missing and empty files within three records of any starting place, all field values symbolic',
     'tests scan one or two small files with few deletions; empty index files, rotations at each place and deleted records next to a file end are not sampled',
     ['libzdb/index_scan.c', 'libzdb/index.c'],
     [('first and next record', 'libzdb/index_scan.c index_first_header, index_next_header'), ('last and previous record', 'libzdb/index_scan.c index_last_header, index_previous_header'), ('files', 'libzdb/index.c index_grab_fileid')],
     'property simulation (path-sensitive abstract interpretation) of the LLVM IR with an automaton of the position of each read', TRUST + 'Three records are followed in one call; that longer runs of deleted records repeat the same steps is argued, not mechanised. An index file which exists can be opened.')

prop('N01', 'WAIT answers when the awaited command runs or its time is over',
     """WAIT for a command is answered as soon as another session executes this command on the same namespace, and with a timeout error not before and not long after the time asked for.""",
     ['schedules'], 'every interleaving of sessions and every timeout', 'tests wait for one command with one timeout', ['zdbd/commands_system.c', 'zdbd/socket_epoll.c'],
     [('waiting sessions', 'zdbd/commands_system.c command_wait, zdbd/redis.c redis_posthandler_client')],
     na='the guarantee is about elapsed time (the time between two returns of epoll_wait and the clock), a runtime quantity which the source does not bound; that the session is answered once whatever happens is part of P16')

prop('N02', 'SCAN, RSCAN and CHECK of any index terminate in bounded time',
     """A walk over an index ends after at most as many steps as there are records, and one SCAN takes not much longer than its time slice.""",
     ['inputs', 'histories'], 'every index', 'tests scan small indexes', ['libzdb/index_scan.c', 'zdbd/commands_scan.c'],
     [('time slice', 'zdbd/commands_scan.c command_scan'), ('steps', 'libzdb/index_scan.c')],
     na='how many deleted records lie between two live ones, and the speed of the disk, are runtime quantities; that each step goes to the following record and nowhere else is decided by P48')

prop('N03', 'CHECK detects every corruption of a payload',
     """CHECK answers 0 for a record whose payload was changed on disk by anything but the server.""",
     ['fault_sequences'], 'every change of any bytes of a data file', 'tests corrupt one byte', ['libzdb/data.c', 'libzdb/crc32.c'],
     [('checksum', 'libzdb/crc32.c zdb_crc32, libzdb/data.c data_check_real')],
     na='a 32 bit checksum detects changes with a probability, not always: no static argument can show it for every input; that CHECK compares the checksum of exactly the bytes of the record is decided by P45')

prop('N04', 'Acknowledged and synced data survives the loss of power',
     """What was acknowledged with sync enabled is read back after a power failure at any moment.""",
     ['crash_points'], 'every moment of a power failure', 'tests cannot cut the power', ['libzdb/data.c', 'libzdb/index.c'],
     [('sync', 'libzdb/data.c data_sync, libzdb/index.c index_sync')],
     na='what a disk and a file system keep is outside of the source; the part the source decides (synchronised before acknowledged, order of data and index, recovery from a cut record) is P04, P02, P05 and P44')

prop('P39', 'A cursor is accepted only for the record it was made for',
     """HISTORY with a cursor answers a version of exactly the key given, with its time and the cursor of the version before, and refuses every other position. SCAN and RSCAN accept a cursor only when the record at its
     place has the id length, the data length and the checksum of the cursor. Whatever bytes a client sends as cursor, nothing beyond what was read from the index is used.""",
     ['inputs'], 'every key, every cursor, every content of the record at its place, failing reads',
     'tests use the cursors they got before; a key which only begins like the one of the record, or a forged cursor, is not sampled',
     ['zdbd/commands_history.c', 'zdbd/commands_scan.c', 'libzdb/index.c'],
     [('comparison of the key', 'zdbd/commands_history.c command_history'), ('comparison of the cursor', 'libzdb/index.c index_entry_deserialize'), ('record', 'libzdb/index.c index_item_get_disk')],
     'property simulation (path-sensitive abstract interpretation) of the LLVM IR with an automaton of what was compared with the record read', TRUST + 'A forged cursor with the right lengths and checksum names a record which exists.')

prop('P49', 'A listing is exactly the walk made, and its cursor continues it',
     """SCAN and RSCAN answer every record of the walk they made, in its order, each with its own key, size and time, and none else. The walk starts at the given cursor or at the end of the index and each step starts
     at the record before. The cursor answered, as the one of KEYCUR, is the place, id length, data length and checksum of the last record (of the key), so that the next call continues where this one ended.""",
     ['histories', 'inputs'], 'every walk of up to three records, with and without cursor, and of 32 to 34 records (where the list grows), ended by time, by the end of the index or by an error; every content of the records',
     'tests compare keys of a single short listing; cursors across files and walks cut by the time slice are not sampled',
     ['zdbd/commands_scan.c', 'libzdb/index.c'],
     [('walk', 'zdbd/commands_scan.c command_scan, command_rscan'), ('reply', 'zdbd/commands_scan.c command_scan_send_scanlist'), ('cursor', 'libzdb/index.c index_item_serialize, index_entry_serialize'),
      ('cursor of a key', 'zdbd/commands_scan.c command_keycur')],
     'property simulation (path-sensitive abstract interpretation) of the LLVM IR with an automaton of the records obtained, compared with the values written to the reply',
     TRUST + 'That other lengths repeat the same steps is argued, not mechanised. The text the values are formatted with is not compared, only the values and their order.')

prop('P27', 'Two servers never work on the same directories',
     """A database is opened only while an exclusive lock is held in its index directory and in its data directory, whatever else is running and however taking a lock fails. The locks are held from before anything is loaded
     until everything is closed, and clients are served only by a server which opened its database.""",
     ['schedules', 'fault_sequences'], 'every interleaving with other servers on either directory (flock), every failing open and flock', 'tests start one server; a second one and file systems without locks are not sampled',
     ['libzdb/bootstrap.c', 'zdbd/zdbd.c'],
     [('locks', 'libzdb/bootstrap.c zdb_open'), ('closing', 'libzdb/bootstrap.c zdb_close'), ('start', 'zdbd/zdbd.c proceed')],
     'property simulation (path-sensitive abstract interpretation) of the LLVM IR with an automaton of the locks held; a query over all calls of close()',
     TRUST + 'flock() excludes as its manual says, also on network file systems. Nobody but the server touches the lock files.')
