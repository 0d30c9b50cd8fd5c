#!/usr/bin/env python3
"""The properties (one place): writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, level_note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ['replies of the protocol']), _note=level_note))


prop('P01', 'Key-value mode reads back the last value written to each key',
     'In key-value mode, reading a key returns exactly the bytes of the last value stored under exactly that key, or nothing if it was never stored or deleted since. Writing the value a key already has is reported as ignored and changes nothing; existence, length, integrity and multi-key reads agree with that map.',
     ['inputs', 'histories'], 'every sequence of stores and deletes over arbitrary binary keys (1-255 bytes) and values, including keys that collide in the key table',
     'Tests use a handful of fixed textual keys; collisions, prefixes, embedded zero bytes and overwrite/delete interleavings over arbitrary bytes are not reached.',
     ['zdbd/commands_set.c', 'zdbd/commands_get.c', 'libzdb/index.c', 'libzdb/index_get.c', 'libzdb/index_set.c', 'libzdb/index_branch.c', 'libzdb/data.c'],
     [('lookup compares the whole key', 'libzdb/index_get.c'), ('hash branches', 'libzdb/index_branch.c'), ('identical value detection', 'zdbd/commands_set.c')])
prop('P02', 'Sequential mode never reuses an id and reads each id exactly',
     'In sequential mode every insert is given a fresh, strictly increasing identifier, and reading it returns exactly the last value stored under it until it is deleted. An identifier that was never given out, or was deleted, denotes nothing: it cannot be read, changed, deleted, or make another entry change.',
     ['inputs', 'histories'], 'every sequence of inserts, updates and deletes, with file rotations between them, and every identifier of any length presented',
     'Tests present only identifiers the server returned a moment ago and never probe foreign identifiers or identifiers across rotations exhaustively.',
     ['zdbd/commands_set.c', 'libzdb/index_seq.c', 'libzdb/index_get.c', 'libzdb/index_set.c'],
     [('direct lookup by position', 'libzdb/index_get.c'), ('identifier map per file', 'libzdb/index_seq.c')])
prop('P03', 'A restarted or reloaded store is indistinguishable from the running one',
     'After a clean stop and start, or after reloading a namespace, every read, scan, version history and statistic answers what it answered before. The store then accepts further operations exactly as if it had never stopped.',
     ['histories', 'configurations'], 'every history of writes, deletes and rotations in both modes, followed by a restart or a reload, and again',
     'Tests restart the server at most a few times on fixed content and do not compare the full observable state.',
     ['libzdb/index_loader.c', 'libzdb/index_seq.c', 'libzdb/data.c', 'libzdb/namespace.c', 'zdbd/commands_namespace.c'],
     [('index replay at load', 'libzdb/index_loader.c'), ('data file re-opened for append', 'libzdb/data.c')])
prop('P04', 'A kill at any moment loses no acknowledged operation',
     'If the process dies at any point of an operation, the next start succeeds and shows every acknowledged operation, and the interrupted one either completely or not at all. The store then works on, and further restarts show the same content.',
     ['crash_points', 'histories'], 'every write of every operation (and of recovery itself) as the crash point, before it, after it, or after any prefix of an append, over all short histories in both modes with rotations',
     'No test kills the server between two writes of one operation.',
     ['libzdb/index_set.c', 'libzdb/index.c', 'libzdb/index_loader.c', 'libzdb/data.c', 'zdbd/commands_set.c'],
     [('append-only order: payload, then index entry', 'zdbd/commands_set.c'), ('recovery at load', 'libzdb/index_loader.c')], ['replies after restart', 'files'])
prop('P05', 'A failed disk write never corrupts or falsely acknowledges',
     'When writing to the disk fails or is cut short during an operation, the operation is refused and leaves the observable content as it was, or is acknowledged and took full effect. Once writes work again the store works on, and a restart shows the same content.',
     ['fault_sequences', 'histories'], 'every write of every operation failing (once, or from there on) or accepting only a prefix, over all short histories in both modes with rotations',
     'No test makes a disk write fail.',
     ['libzdb/index_set.c', 'libzdb/index.c', 'libzdb/data.c', 'zdbd/commands_set.c'],
     [('error propagation of the write path', 'libzdb/data.c, libzdb/index_set.c')], ['replies', 'files'])
prop('P06', 'Data files are append-only',
     'Bytes once written to a data file are never changed or removed by normal operation: every operation, rotation, restart and reload only appends whole records to the newest file. Each record holds the identifier, the payload, its checksum and the position of the record before it, so the files alone describe the full history.',
     ['histories', 'configurations'], 'every history of writes, deletes, rotations, restarts and reloads in both modes',
     'No test looks at the data files; only replies are compared.',
     ['libzdb/data.c', 'libzdb/data.h', 'zdbd/commands_set.c'],
     [('append-only data files', 'libzdb/data.c'), ('record chain', 'libzdb/data.c')], ['data files'])
prop('P07', 'The integrity check tells intact payloads from damaged ones',
     'The integrity check of an entry succeeds exactly when the stored payload is what was written: any corruption of payload or checksum is reported, and intact entries never are. The checksum is the same on hardware with and without acceleration.',
     ['inputs', 'fault_sequences'], 'every value and every corruption of one byte, of several neighbouring bytes or of the stored checksum, on entries in the current or an older file, before or after a restart',
     'Tests check only intact entries.',
     ['libzdb/data.c', 'libzdb/crc32.c', 'zdbd/commands_get.c'],
     [('integrity check', 'libzdb/data.c'), ('checksum', 'libzdb/crc32.c')])
prop('P08', 'Scans list every live entry exactly once, in write order',
     'Walking a namespace forward or backward, in as many pages as time slices allow, lists every live entry exactly once with its length and time, in write order (identifier order in sequential mode), and ends. Entries not touched between two pages are neither lost nor repeated; a walk can start from the cursor of any key, and prefix search lists exactly the live keys with that prefix.',
     ['inputs', 'histories', 'schedules'], 'every short history in both modes with rotations, any page boundaries, any operation, rotation or restart between pages',
     'Tests scan a fixed data set in one or two pages that nothing changes meanwhile.',
     ['zdbd/commands_scan.c', 'libzdb/index_scan.c'],
     [('scan and cursor', 'zdbd/commands_scan.c'), ('walk over index files', 'libzdb/index_scan.c')])
prop('P10', 'The version history of a key is complete and in order',
     'Walking the history of a key yields every value it held since it was created, newest first, each with its own time, and ends at the oldest one, also across file rotations and restarts. A history cursor obtained for one key does not open the history of another one.',
     ['histories', 'inputs'], 'every short history in both modes with rotations and restarts',
     'Tests look at one short fixed history.',
     ['zdbd/commands_history.c', 'libzdb/index_get.c', 'libzdb/index_set.c', 'libzdb/data.c'],
     [('chain of index entries', 'libzdb/index_set.c'), ('history command', 'zdbd/commands_history.c')])
prop('P09', 'Crafted cursors do no harm',
     'Whatever bytes a client presents as a scan or history cursor, the request is answered or refused with one well-formed reply. The server keeps running, reads nothing outside its files and buffers, writes nothing, and every later operation answers as before.',
     ['inputs'], 'every cursor of any content and length, on small data sets in both modes with and without rotations',
     'Tests present a few fixed malformed cursors.',
     ['zdbd/commands_scan.c', 'zdbd/commands_history.c', 'libzdb/index.c'],
     [('cursor validation', 'libzdb/index.c'), ('history cursor validation', 'zdbd/commands_history.c')])

prop('P11', 'Files rotate in step when full, when asked or when due',
     'A new pair of index and payload files is started when the current payload file cannot take the next value within its size limit, when an administrator asks, or when the configured time passed with changes made; never for another reason. Both files of a pair carry the same number, every file stays within its limit, and all entries stay readable whichever file holds them, also after a restart.',
     ['histories', 'configurations', 'inputs'], 'every short history of writes, deletes and rotations with several size limits, time steps and more than ten files',
     'Tests never fill a file to its limit and never reach ten files.',
     ['zdbd/commands_set.c', 'zdbd/zdbd.c', 'zdbd/redis.c', 'libzdb/index.c', 'libzdb/data.c', 'zdbd/commands_namespace.c'],
     [('size check before inserting', 'zdbd/commands_set.c'), ('rotation of both files', 'libzdb/index.c, libzdb/data.c')])
prop('P12', 'Namespaces do not influence each other',
     'Writes, deletes, rotations, reloads, setting changes and the removal of one namespace leave the content of every other namespace as it was. The same key in two namespaces denotes two entries, also for namespaces with similar names, in different modes, and after a restart.',
     ['histories', 'inputs', 'configurations'], 'every short history over three namespaces with the same arbitrary keys, one administrative event and a restart',
     'Namespaces share one key table; tests never use colliding keys in several namespaces around removals and reloads.',
     ['libzdb/namespace.c', 'libzdb/index.c', 'libzdb/index_get.c', 'libzdb/index_branch.c', 'zdbd/commands_namespace.c'],
     [('entries carry their namespace', 'libzdb/index_get.c'), ('cleanup of the entries of one namespace', 'libzdb/index.c')])
prop('P13', 'Read-only, locked, frozen and write-once states hold for every command',
     'A locked namespace refuses every update and still answers every read; a frozen one refuses both; a write-once one refuses overwriting, deleting and flushing but accepts new entries; a session that entered a protected namespace without its password cannot change it in any way. A refused operation changes nothing, neither in memory nor on disk, and once the state is lifted everything is as before.',
     ['histories', 'inputs', 'configurations'], 'every state, with every pair of update and read commands, on present and absent keys, in both modes',
     'Tests try one or two commands per state and never look at the content afterwards.',
     ['zdbd/commands_set.c', 'zdbd/commands_dataset.c', 'zdbd/commands_scan.c', 'zdbd/commands_history.c', 'zdbd/commands_get.c', 'zdbd/commands_namespace.c'],
     [('checks in front of each command', 'zdbd/commands_*.c'), ('state changes', 'zdbd/commands_namespace.c')])
prop('P14', 'Reserved commands need the administrator',
     'When an administrator password is configured, a session that did not authenticate cannot create, remove, configure, reload or rotate namespaces, choose timestamps, read raw payload or internal lists, nor mirror traffic, and such an attempt has no effect. It is also not shown passwords or paths. The authenticated administrator can do all of these.',
     ['inputs', 'histories'], 'every reserved command by every kind of unauthenticated session, including one that reuses the connection slot of an administrator',
     'Tests check a few commands in one order only; sessions that inherit or guess rights are not tried.',
     ['zdbd/commands.c', 'zdbd/commands_namespace.c', 'zdbd/commands_system.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c', 'zdbd/commands_replicate.c', 'zdbd/redis.c'],
     [('authorization check', 'zdbd/commands.c'), ('rights of a new session', 'zdbd/redis.c')])
prop('P15', 'Authentication accepts exactly the password, and each challenge once',
     'Plain authentication succeeds exactly for the administrator password, byte for byte. Challenge authentication succeeds exactly for the hash of the latest challenge of the same session and the password, and every challenge can be used at most once, whatever the outcome. Different random bytes give different challenges.',
     ['inputs', 'histories'], 'every presented password or answer, every short sequence of challenges and answers by two sessions, and every value of the random bytes',
     'Tests try one right and one wrong password; near misses, replays and mixed sessions cannot be enumerated.',
     ['zdbd/commands_auth.c', 'zdbd/auth.c', 'libzdb/security.c', 'libzdb/sha1.c'],
     [('comparison', 'zdbd/auth.c'), ('challenge per session', 'zdbd/commands_auth.c'), ('challenge text and hash', 'libzdb/security.c, libzdb/sha1.c')])
prop('P16', 'SELECT enters a namespace exactly with the rights obtained',
     'A protected namespace is entered with write access exactly when the right password, or the right answer to an unused challenge, is presented; without password it is entered read-only when public and not at all when private. A refused attempt leaves the session where it was, with the rights it had. A protected default namespace starts read-only.',
     ['inputs', 'histories', 'configurations'], 'every password and answer presented, for every kind of namespace, and every pair of attempts',
     'Tests use a few fixed passwords and do not observe the rights of a session after refusals.',
     ['zdbd/commands_namespace.c', 'zdbd/auth.c', 'zdbd/redis.c', 'libzdb/security.c'],
     [('rights decided on entering', 'zdbd/commands_namespace.c'), ('initial rights', 'zdbd/redis.c')])
prop('P17', 'Namespace names are exact and stay inside the data directories',
     'A namespace can be created exactly under the names that denote one direct, new sub-directory: not empty, at most 128 bytes, without slash or zero byte, not a dot name and not in use. Each name denotes exactly its own directories, also after a restart, and no command acts on another namespace than the one named or touches files outside of the configured directories.',
     ['inputs'], 'every short name of arbitrary bytes and long names around the limit, for every command that takes one',
     'Tests use a few ordinary names; traversal, truncation and embedded zero bytes need every byte value.',
     ['zdbd/commands.c', 'zdbd/commands_namespace.c', 'libzdb/namespace.c', 'libzdb/filesystem.c'],
     [('name validation', 'libzdb/namespace.c'), ('argument validation', 'zdbd/commands.c')])
prop('P18', 'Removing a namespace erases all of it and nothing else',
     'After a namespace is removed none of its files, entries, settings or statistics are left, it stays gone after a restart, and a namespace created again under the name is empty and open. Sessions inside it, idle, in the middle of a request or waiting, are refused and reach neither freed memory nor the successor; the default namespace and the one in use by the requester cannot be removed.',
     ['histories', 'inputs'], 'every short history of the removed namespace, every state of a session inside it, with colliding keys in the other namespaces',
     'Tests remove one small namespace without sessions inside it.',
     ['libzdb/namespace.c', 'libzdb/index.c', 'libzdb/filesystem.c', 'zdbd/commands_namespace.c', 'zdbd/redis.c'],
     [('entries of the namespace leave the key table', 'libzdb/index.c'), ('sessions are detached', 'zdbd/redis.c'), ('removal of files', 'libzdb/filesystem.c')])
prop('P19', 'Namespace settings survive restarts and interruptions',
     'Password, public flag, size limit, write-once flag and mode of a namespace are exactly the same after any number of restarts or reloads as before. When the process is killed while settings are changed or a namespace is created, the next start finds the old or the new settings, never a mixture, and a confirmed change is kept.',
     ['histories', 'crash_points', 'inputs'], 'every short sequence of changes with arbitrary passwords and limits, restarts at any place, and a kill at any write',
     'Tests never restart the server and never interrupt a change.',
     ['libzdb/namespace.c', 'zdbd/commands_namespace.c', 'libzdb/index_loader.c'],
     [('settings file', 'libzdb/namespace.c'), ('mode in the index header', 'libzdb/index_loader.c')])
prop('P20', 'Flushing erases the content of one namespace and keeps its settings',
     'FLUSH is accepted exactly for a private, password-protected namespace; it leaves the namespace empty, on disk too, with its settings and mode, ready for new entries that behave as in a new namespace, also after a restart. Other namespaces keep their content. When interrupted, no key shows a value it never had and the flush can be repeated.',
     ['histories', 'crash_points', 'inputs'], 'every short history with rotations, followed by a flush (possibly killed at any file operation), new operations and a restart',
     'Tests flush once and look at a single key.',
     ['libzdb/namespace.c', 'libzdb/index.c', 'libzdb/data.c', 'zdbd/commands_namespace.c'],
     [('removal and reload of the files', 'libzdb/namespace.c'), ('condition', 'zdbd/commands_namespace.c')])
prop('P21', 'Requests mean the same however the network delivers them',
     'The requests a connection carries, their effects and the order of their replies depend only on the bytes sent, not on how they are cut, pipelined, mixed with other connections or aligned with internal buffers, and every complete request is answered exactly once, even if the client stops sending afterwards. A malformed stream is reported with one error and only that connection is closed; no length or count in it makes the server read or write outside its memory. Other connections and the stored data are not disturbed.',
     ['inputs', 'schedules'], 'every cut and interleaving of a pipeline, every one- and two-byte change of it, numbers of every form, every alignment with the receive buffer',
     'Tests send a handful of malformed requests and three alignments; the rest comes from one client library, which always sends whole requests.',
     ['zdbd/redis.c', 'zdbd/commands.c', 'zdbd/socket_epoll.c'],
     [('incremental request parser', 'zdbd/redis.c'), ('event loop, edge triggered', 'zdbd/socket_epoll.c'), ('dispatch', 'zdbd/commands.c')])
prop('P22', 'A client which reads slowly still gets every reply, in order',
     'Whatever amounts of data a connection accepts at a time, its client receives every reply completely, once, and in the order of its requests, exactly as a client which reads at once would. Meanwhile the other clients are served. When it leaves with replies pending, nothing of them reaches anybody else, and its place is free for the next client.',
     ['schedules', 'inputs'], 'every partition of the reply stream into the amounts the connection accepts, before, between and after pipelined requests, and every point of leaving',
     'On a loopback connection the system accepts whole replies, so the tests never reach the code which keeps the rest of a reply for later.',
     ['zdbd/redis.c', 'zdbd/socket_epoll.c', 'zdbd/commands_get.c', 'zdbd/commands_scan.c'],
     [('pending responses of a client', 'zdbd/redis.c'), ('write readiness', 'zdbd/socket_epoll.c')])
prop('P23', 'WAIT returns on the awaited command or after its timeout, once',
     'A client which waits for a command (or for any) is notified exactly once, by the first such command another client of the same namespace executes, with the name of that command; commands of other namespaces, unknown commands and its own do not wake it. If none comes it is told of the timeout, not before the time it asked for (5 seconds by default) and not long after. Unknown command names and timeouts out of range are refused, and a client which leaves while waiting disturbs nobody.',
     ['schedules', 'histories', 'inputs'], 'every short interleaving of waits, commands and departures of four clients in two namespaces, every elapsed time and every timeout and command name',
     'Tests wait for one command with one other client and one timeout; the time arithmetic around seconds boundaries is never reached.',
     ['zdbd/commands_system.c', 'zdbd/redis.c', 'zdbd/commands.c', 'zdbd/zdbd.c'],
     [('WAIT', 'zdbd/commands_system.c'), ('notification after each command', 'zdbd/redis.c'), ('timeouts', 'zdbd/redis.c')])
prop('P24', 'The dirty list names every index file which was rewritten',
     'INDEX DIRTY lists, once and in order, every index file of the namespace in which an existing entry was rewritten since the list was last reset (or the namespace loaded), so that a backup which copies the listed and the grown files is complete. It lists no file that was left untouched. INDEX DIRTY RESET empties the list and nothing else.',
     ['histories'], 'every short history of updates, deletions, rotations and resets over entries living in the first, eighth, ninth and last of up to 17 index files, fresh, restarted or reloaded; the content of all index files is compared byte by byte',
     'Tests list the dirty files of one or two index files once.',
     ['libzdb/index.c', 'libzdb/index_set.c', 'zdbd/commands_index.c'],
     [('bitmap of dirty files', 'libzdb/index.c'), ('in-place rewrites', 'libzdb/index_set.c')], ['replies of the protocol', 'index files'])
prop('P25', 'The size limit of a namespace holds exactly',
     'With a size limit set on a namespace, a write is accepted exactly when the live payload of the namespace, replaced values not counted, stays within the limit, and is otherwise refused without any effect. The limit, the payload and the space left are reported accurately, the limit survives restarts and reloads, and the contents of other namespaces do not count.',
     ['inputs', 'histories'], 'every limit of one (thorough: two) digits and every short history of writes, replacements, deletions, reloads and restarts around it, in both modes',
     'Tests fill one namespace with one limit and never sit exactly at the limit after replacements, deletions or restarts.',
     ['zdbd/commands_set.c', 'zdbd/commands_namespace.c', 'libzdb/namespace.c', 'libzdb/index.c'],
     [('limit check', 'zdbd/commands_set.c'), ('live payload accounting', 'libzdb/index.c'), ('persisted limit', 'libzdb/namespace.c')])
prop('P26', 'With --sync, acknowledged operations survive a power loss',
     'When the server runs with --sync and power fails, so that of any file only what was forced to the disk is certain to be there, the next start succeeds and shows every acknowledged write, replacement and deletion. An operation interrupted by the power loss is there completely or not at all. The store then works on, and survives the next power loss as well.',
     ['crash_points', 'histories'], 'every short history with rotations, a power loss after it or at any write of one more operation, and for each file either everything or only what was forced to the disk survives',
     'No test can take away what the kernel had not written yet.',
     ['libzdb/index.c', 'libzdb/index_set.c', 'libzdb/data.c', 'libzdb/index_loader.c'],
     [('sync after each write', 'libzdb/index.c'), ('sync after each write', 'libzdb/data.c')], ['replies after restart'])
prop('P27', 'Mirrors receive exactly what was executed, and replaying it reproduces it',
     'A connection in mirror mode receives every known request other clients execute, once, in order and byte for byte, together with its time, its namespace and the id of the instance where it was first made. Replaying that stream through a master connection reproduces the content on another instance, which mirrors it further under the original id; a request which comes back to the instance where it was first made is not executed and not mirrored again. Mirroring, replicating and reading passwords through a master connection are reserved to administrators.',
     ['inputs', 'histories', 'configurations'], 'every short sequence of requests by two clients with arbitrary argument bytes, mirrored to one or two connections of any reading speed, replayed on a second instance and returned to the first; every owner number',
     'Tests only check that the mirror command answers; nothing reads the stream or replays it.',
     ['zdbd/redis.c', 'zdbd/commands_replicate.c', 'zdbd/commands_namespace.c', 'libzdb/bootstrap.c'],
     [('mirror stream', 'zdbd/redis.c'), ('owner check of replicated requests', 'zdbd/redis.c'), ('MIRROR and MASTER', 'zdbd/commands_replicate.c')])
prop('P30', 'Serving requests does not consume memory or descriptors',
     'Once answered, a request holds on to nothing: repeating any request or short exchange, accepted, refused or failed on disk, leaves the memory and the open files of the server as they were, apart from what newly stored content needs. The same holds for clients which leave, at any byte of a request, with replies pending, waiting, mirroring or authenticating.',
     ['inputs', 'fault_sequences', 'schedules'], 'every command in accepted and refused forms with arbitrary argument bytes, every cut and damaged byte of a request by a client which leaves, every failing write; the heap and the descriptors are compared between two rounds',
     'Tests run for seconds and look at replies only; nothing measures what a request leaves behind.',
     ['zdbd/commands_set.c', 'zdbd/commands_namespace.c', 'zdbd/redis.c', 'zdbd/commands_scan.c', 'zdbd/commands_history.c', 'libzdb/data.c', 'libzdb/namespace.c'],
     [('request lifetime', 'zdbd/redis.c'), ('identical value detection', 'zdbd/commands_set.c'), ('namespace teardown', 'libzdb/namespace.c')], ['heap and open files of the process'])
prop('P28', 'Data files may be taken away and brought back',
     'While any data files but the current one are away, everything which needs no payload works exactly as before: existence, lengths, times, scans, statistics, updates, deletions, restarts and reloads. A payload which is away is refused, never replaced by something else and never reported intact, and the other payloads are served. Once the files are back every value and every history is there, without the server having been restarted or touched the absent files.',
     ['histories', 'configurations'], 'every short history with rotations in both modes, every subset of the older data files away, every further operation, with restarts and reloads',
     'Tests never remove a data file under a running server.',
     ['libzdb/data.c', 'zdbd/commands_get.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c', 'zdbd/commands_history.c'],
     [('payload files opened on demand', 'libzdb/data.c'), ('everything else answered from the index', 'libzdb/index.c')])
prop('P34', 'Hooks run once per event, with the documented arguments and effect',
     'Every event runs the hook program exactly once with the documented name, server identifier and arguments; blocking hooks are waited for, others are not. The server starts exactly if the ready hook succeeds, an absent data file is used exactly if its hook brought it back, the list of rewritten index files is forgotten exactly if it was handed over successfully, and a hook which fails, is killed or cannot be started counts as failed and harms nothing else. The list of hooks tells what ran recently, with its arguments, times and outcome.',
     ['histories', 'fault_sequences', 'schedules'], 'every short sequence of events, every outcome of each hook (any exit code, a signal, no process), hooks ending in any order, with the child followed up to the execution of the program',
     'Tests run one hook script that always succeeds.',
     ['libzdb/hook.c', 'libzdb/index.c', 'libzdb/data.c', 'libzdb/namespace.c', 'zdbd/commands_system.c', 'zdbd/redis.c', 'zdbd/zdbd.c'],
     [('execution and collection', 'libzdb/hook.c'), ('rotation hooks', 'libzdb/index.c'), ('list', 'zdbd/commands_system.c')], ['replies', 'arguments of the hook program'])
prop('P29', 'Each request gets one well-formed answer; refusals and reads change nothing',
     'Every request a connected client sends, known or unknown, with any arguments, is answered by exactly one well-formed value, after which the connection goes on and the next request is answered. A request which is refused, and every request which only reads, leaves the files and the stored entries untouched. Only clients of a namespace which was removed are disconnected, after being told.',
     ['inputs', 'histories'], 'every command with every short list of arguments of many kinds, every unknown command name up to 4 bytes or one byte away from a known one, in both modes',
     'Tests send a few malformed requests and look at the kind of reply only.',
     ['zdbd/commands.c', 'zdbd/redis.c', 'zdbd/commands_get.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c', 'zdbd/commands_namespace.c', 'zdbd/commands_scan.c', 'zdbd/commands_history.c', 'zdbd/commands_system.c'],
     [('dispatch', 'zdbd/commands.c'), ('replies', 'zdbd/redis.c')])
prop('P35', 'Raw records are served exactly, and replaying them rebuilds the namespace',
     'Every record ever written to a data file, deletions and empty values included, is served to an administrator by its file and offset exactly as it was written, and the end of each file is told. Following these records from the position another namespace reports, and replaying them there with their times, ends with data files of the same content at the same positions and the same entries and histories. Whatever file and offset is asked for, nothing but an answer or a refusal comes of it.',
     ['histories', 'inputs'], 'every short history of updates, deletions, rotations and reloads, every point of catching up, every offset of a file',
     'Tests never request raw records; the incremental update tool relies on them.',
     ['zdbd/commands_system.c', 'libzdb/data.c', 'zdbd/commands_namespace.c', 'tools/incremental-update/incremental.py'],
     [('raw requests', 'zdbd/commands_system.c'), ('reading by offset', 'libzdb/data.c')])
prop('P31', 'Reports and counters tell what is there',
     'The information about a namespace has each documented field exactly once, with the value which follows from what was done: entries, sizes, limit and space left, settings, mode, next identifier, and for administrators only the directories, the active files and the position in them, also after a restart or reload. The list of namespaces and the free space of each partition are exact. Counters of the server and of each namespace count exactly the requests, bytes, clients and failed disk operations there were, and asking changes nothing.',
     ['histories', 'fault_sequences', 'inputs'], 'every short history of operations, settings, rotations, reloads and restarts, every place a write may fail, with differing block sizes of the partitions',
     'Tests only look whether these commands answer.',
     ['zdbd/commands_namespace.c', 'zdbd/commands_system.c', 'zdbd/commands.c', 'zdbd/redis.c', 'libzdb/index_set.c', 'libzdb/index.c', 'libzdb/data.c', 'libzdb/index_loader.c', 'libzdb/namespace.c'],
     [('reports', 'zdbd/commands_namespace.c'), ('server counters', 'zdbd/commands_system.c'), ('statistics of entries', 'libzdb/index_set.c'), ('failures', 'libzdb/index.c')])
prop('P32', 'One instance per directory, and no loss between its end and the next start',
     'While an instance runs, a further start on its data or index directory is refused and changes nothing stored, and so is a start with one directory given for both, with an unknown mode or option, or a file size outside of the limits. Both directories stay locked whatever is asked of the instance, and are free as soon as it ends: programs it runs inherit neither its locks nor its sockets. After an end on request, everything acknowledged is on the disk (with flushing on rotation enabled, also that of earlier files), and the next start serves it; so it does after a kill.',
     ['histories', 'crash_points', 'configurations'], 'every short history of operations and administrative commands, every way to end, every spelling of the directories, every mode word up to six letters, sizes around the limits',
     'Tests run one instance at a time in fresh directories and never look at locks, inherited descriptors or synced content.',
     ['libzdb/bootstrap.c', 'zdbd/zdbd.c', 'libzdb/namespace.c', 'libzdb/index.c', 'libzdb/data.c', 'libzdb/hook.c', 'zdbd/redis.c', 'zdbd/socket_epoll.c', 'libzdb/libzdb.c'],
     [('locks', 'libzdb/bootstrap.c'), ('signals and options', 'zdbd/zdbd.c'), ('flush at the end', 'libzdb/namespace.c'), ('size parser', 'libzdb/libzdb.c')], ['exit status', 'files', 'replies after the next start', 'descriptors of hook programs'])
prop('P36', 'Offline tools: rebuilt index, compacted copy, settings, verdicts are exact',
     'After the index of a namespace is lost, rebuilding it offline from intact data files gives a server with exactly the contents, order and histories of before, or those of the given earlier moment, and compacting gives a copy with exactly the same keys and values, not larger and without what was deleted. The editor leaves exactly the settings asked for, and the integrity check fails exactly on files with a damaged payload, a wrong checksum or a cut record. No tool changes its inputs.',
     ['histories', 'inputs', 'configurations'], 'every short history of updates, deletions, rotations and restarts in both modes; every combination of settings and short password; every damaged byte and every cut of a data file',
     'Nothing tests the tools; they are what an operator has left when files are lost or damaged.',
     ['tools/index-rebuild/index-rebuild.c', 'tools/quick-compaction/quick-compact.c', 'tools/namespace-editor/namespace-editor.c', 'tools/integrity-check/integrity-check.c', 'tools/index-dump/index-dump.c', 'tools/namespace-dump/namespace-dump.c', 'libzdb/namespace.c', 'libzdb/data.c', 'libzdb/index_loader.c'],
     [('rebuilding', 'tools/index-rebuild/index-rebuild.c'), ('compacting', 'tools/quick-compaction/quick-compact.c'), ('settings', 'tools/namespace-editor/namespace-editor.c'), ('verdict', 'tools/integrity-check/integrity-check.c')])
prop('P33', 'The embedded library and the server keep the same contract on the same files',
     'A program using the library gets, for every insertion, update, read, existence, integrity and deletion request, the answer the server would give: the last value written, identical data told and not written again, differing data always written, limits exact, unknown and too long keys refused. A request whose disk operation failed is told and changes nothing. A server started later on these files, or the library after a server, finds the same keys, values, order and versions.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'], 'every short history of calls in both modes and in mixed mode, every pair of different values with one checksum, every failing write, every rotation boundary',
     'Tests only talk to the server; the example program crashed on its first insertion.',
     ['libzdb/api.c', 'libzdb/bootstrap.c', 'libzdb/index_set.c', 'libzdb/index_get.c', 'libzdb/data.c', 'libzdb/namespace.c', 'examples/zdb-example.c'],
     [('library calls', 'libzdb/api.c'), ('opening and closing', 'libzdb/bootstrap.c')])
prop('P37', 'Copying and following another server carries every key, or tells it failed',
     'A copy of a database to another server that ends with success leaves there every key which was not changed meanwhile, with exactly its value, whatever other clients write during it; a write the target refuses, or a lost target, makes the copy fail. A program following a server has, each time it waits again, every key written before the last signal, even when nothing existed at its start. Neither ever writes anything the source did not hold at that key.',
     ['histories', 'schedules', 'fault_sequences'], 'every short history before the copy, one write of another client between any two requests of the copy, any refused write, replies split in pages of any length',
     'No test runs these programs; a wrong copy is only noticed once the original is gone.',
     ['utilities/db-sync/db-sync.c', 'utilities/db-replicate/db-replicate.c', 'zdbd/commands_scan.c', 'zdbd/commands_get.c', 'zdbd/commands.c'],
     [('copying', 'utilities/db-sync/db-sync.c'), ('following', 'utilities/db-replicate/db-replicate.c')])
prop('P38', 'Sessions are separate',
     'What a connection selected, its right to write, its administrator rights, the request it has half sent, the reply it has not read and the event it waits for concern that connection alone. A new connection starts in the default namespace with the rights of a stranger, whoever used its descriptor before and in whatever state it left. Nobody receives anything of an exchange of others.',
     ['histories', 'schedules', 'inputs'], 'every sequence of connecting, leaving, selecting, authenticating, half requests, unread replies and waits of three clients, in any order, with near and far descriptors',
     'Tests use few connections, one after another, and never look at a client after another one acted.',
     ['zdbd/redis.c', 'zdbd/commands_namespace.c', 'zdbd/commands_auth.c', 'zdbd/commands.c', 'zdbd/socket_epoll.c'],
     [('sessions', 'zdbd/redis.c'), ('selection', 'zdbd/commands_namespace.c'), ('authentication', 'zdbd/commands_auth.c')])
NOT_APPLICABLE = []
DEFAULT_NOTE = 'Bounded: decided by Z3 for every value of the symbolic inputs and every branch within the bounds stated in the evidence (registry.py). Trusts zsym, Z3, clang bitcode and the operating system model in env/; counterexamples are confirmed by a native AddressSanitizer replay.'


def main():
    import registry
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks = []
    for p in P:
        if p['id'] not in registry.JOBS:
            continue
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py run %s' % p['id'], thorough_cmd='python3 check.py run %s --tier thorough' % p['id'],
                           technique='symbolic execution of the daemon (LLVM bitcode) with Z3', level='model_checking', level_note=(p['_note'] + ' ' if p['_note'] else '') + DEFAULT_NOTE))
    na = [dict(property=a, reason=b) for a, b in NOT_APPLICABLE]
    m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na, notes='No hooks: the checks compile the unmodified sources of /repo (main renamed by a compiler flag).')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    mark = '<!-- jobs: generated by props.py -->\n'
    d = open(V + '/DESIGN.md').read().split(mark)[0] + mark + '\n## Jobs and their bounds\n'
    for p in P:
        if p['id'] in registry.JOBS:
            t = registry.META[p['id']]
            d += '\n**%s** %s. Bounds: %s. Outside: %s.\n' % (p['id'], p['title'], t['bounds'], t['outside'])
            d += ''.join('* `%s` (harness/%s.c): %s\n' % (j['name'], j['harness'], j['bounds']) for j in registry.JOBS[p['id']])
    open(V + '/DESIGN.md', 'w').write(d)


main()
