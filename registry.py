"""What each check explores: jobs (harness, parameters, bounds) per property."""
ASSUMPTIONS = [
    'the operating system behaves as the model in env/zenv.c: byte-exact files, one process, writes ordered as issued, no bit rot other than what a harness injects',
    'C library functions behave as the C standard says (env/zrt.c gives the symbolic build the few it needs); clang -O0 bitcode of the sources has the meaning of the compiled program (x86-64, little endian)',
    'memory allocation succeeds',
    'Z3 and the executor zsym are trusted; sampled paths of every job are re-run natively under AddressSanitizer on every run, and every counterexample is confirmed natively before it is reported',
]
META = {}
JOBS = {}
M = dict(files=['model.c'])
FULL = ['end', 'updated', 'deleted', 'unchanged']


def job(prop, name, harness, bounds, covers, thorough=None, model=True, **kw):
    j = dict(name=name, harness=harness, bounds=bounds, covers=covers)
    params = {k: v for k, v in kw.items() if isinstance(v, int) and k not in ('timeout', 'max_steps', 'validate', 'query_timeout', 'thorough_only')}
    rest = {k: v for k, v in kw.items() if k not in params}
    j['params'] = params
    j.update(rest)
    if model and 'files' not in j:
        j['files'] = ['model.c']
    if thorough:
        t = {k: v for k, v in thorough.items() if not isinstance(v, int) or k in ('timeout', 'max_steps')}
        tp = {k: v for k, v in thorough.items() if k not in t}
        if tp:
            t['params'] = tp
        j['thorough'] = t
    JOBS.setdefault(prop, []).append(j)


def meta(prop, bounds, outside, assumptions=None):
    META[prop] = dict(bounds=bounds, outside=outside, assumptions=ASSUMPTIONS + (assumptions or []))


# ---------------------------------------------------------------- P01 key-value
meta('P01', 'two keys, 3 operations (thorough 4), every key byte and value byte; keys at the length limits', 'longer histories; more than two keys; values longer than 3 bytes except in the size jobs')
job('P01', 'history', 'p01', '3 ops on 2 keys of 1-2 arbitrary bytes, values of 0-2 arbitrary bytes, all keys in one bucket', FULL, ops=3, vlens=3, bits=0, thorough=dict(ops=4))
job('P01', 'buckets', 'p01', '2 ops, keys spread over 2 buckets by their hash', FULL, ops=2, vlens=2, bits=1, thorough=dict(ops=3))
job('P01', 'chain', 'p01', '5 ops on 3 keys of one bucket, value of one byte', ['end', 'deleted'], ops=5, keys=3, fixed=1, vlens=1, steps=0, thorough=dict(ops=6, keys=4))
job('P01', 'sizes', 'p01size', 'two keys, one a prefix of the other, of 1-255 bytes, values of 0-513 bytes, keys of 256 bytes and more', ['end'], model=False)
job('P01', 'similar', 'p01keys', 'two keys of one length (19 lengths of 1-255 bytes) which differ in any one of 5 bytes', ['end', 'restarted'], model=False)

job('P01', 'alike', 'p01alike', 'a value of 5-600 bytes replaced by one of the same length which differs in any of 5 bytes at the start, in the middle or at the end', ['end', 'ignored', 'replaced'], model=False)
job('P01', 'big', 'p01alike', 'the same with values of 4000-70000 bytes', ['end', 'ignored', 'replaced'], model=False, big=1, window=2, defs=['-DVFS_FILESIZE=300000', '-DVFS_NODES=24', '-DCONN_RX=75000', '-DCONN_TX=80000'])

# ---------------------------------------------------------------- P02 sequential
meta('P02', '4 operations (inserts, updates, deletes), arbitrary values up to 1 byte, an arbitrary identifier of 4, 7, 8 or 9 bytes probed', 'longer histories; more than 4 identifiers')
job('P02', 'history', 'p02', '4 ops', FULL, ops=4, foreign=0, thorough=dict(ops=5))
job('P02', 'ids', 'p02', '2 ops, then any identifier of 4, 7, 8 or 9 arbitrary bytes with any command', ['end', 'deleted', 'known-id', 'unknown-id'], ops=2, foreign=1, lens=1, vlens=1)
job('P02', 'jump', 'p02', '3 ops with file rotations between them, then any 8-byte identifier', ['end', 'deleted', 'known-id', 'unknown-id', 'jumped'], ops=3, foreign=1, jump=1, vlens=1)

job('P02', 'alike', 'p01alike', 'a value of 5-600 bytes replaced by one of the same length which differs in any of 5 bytes', ['end', 'ignored', 'replaced'], model=False, seq=1)
job('P02', 'big', 'p01alike', 'the same with values of 4000-70000 bytes', ['end', 'ignored', 'replaced'], model=False, seq=1, big=1, window=2, defs=['-DVFS_FILESIZE=300000', '-DVFS_NODES=24', '-DCONN_RX=75000', '-DCONN_TX=80000'])

# ---------------------------------------------------------------- P03 restart
meta('P03', '3 operations, restart or RELOAD, one more operation, restart', 'longer histories; a namespace descriptor damaged from outside')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P03', n, 'p03', '3 ops, restart or reload, 1 op, restart', FULL + ['restarted', 'reloaded'], ops=3, seq=s, reload=1)
    job('P03', n + '-other', 'p03', '0-2 ops in a namespace of its own, restart or reload, 1 op, restart', ['end', 'restarted', 'reloaded'], ops=2, seq=s, reload=1, other=1)
    job('P03', n + '-jump', 'p03', '3 ops with file rotations, restart, 1 op, restart', FULL + ['restarted', 'jumped'], ops=3, seq=s, jump=1, reload=0)

# ---------------------------------------------------------------- P04 crash
C4 = ['end', 'crashed', 'settled-new', 'settled-old']
meta('P04', '1-2 operations, then one operation killed at any of its writes (before, after, or inside an append)', 'a data file whose last record was torn is not repaired, only never referred to; torn file headers and in-place writes of a few bytes are taken as all-or-nothing; loss of unsynced pages (power loss) is not modelled here')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P04', n, 'p04', '2 ops, 1 op killed between writes, restart, 1 op, restart', C4, ops=2, seq=s)
    job('P04', n + '-torn', 'p04', '1 op, 1 op killed inside an append after any number of bytes', C4, ops=1, torn=46 if s else 40, seq=s)
    job('P04', n + '-jump', 'p04', '2 ops, 1 op or rotation killed, with rotations before', C4, ops=2, jump=1, seq=s)
job('P04', 'user-boot', 'p04', 'killed again at any write of the recovery', ['end', 'crashed', 'settled-new', 'crashed-in-recovery'], ops=1, bootcrash=4, jump=1)

# ---------------------------------------------------------------- P05 write errors
C5 = ['end', 'failed', 'not-reached']
meta('P05', '1-2 operations, then one operation during which writes fail from any point on, once or until it ends, or one append is cut short', 'failing open, read and fsync; failures during rotation')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P05', n, 'p05', '2 ops, 1 op with failing writes, 1 op, restart', C5, ops=2, seq=s)
    job('P05', n + '-part', 'p05', '1 op, 1 op with one write cut short after any number of bytes', ['end', 'failed'], ops=1, part=46 if s else 40, sticky=0, seq=s)
    job('P05', n + '-jump', 'p05', 'as above with rotations before', C5, ops=2, jump=1, seq=s)

# ---------------------------------------------------------------- P06 append-only data files
meta('P06', '3 operations on 2 keys with restarts, reloads or rotations between them; up to 5 operations with keys of 1-255 and values of 1-70000 bytes', 'longer histories; recovery after a torn write (which removes the torn tail)')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P06', n, 'p06', '3 ops, each followed by nothing, a rotation, a restart or a reload', ['end', 'jumped', 'restarted', 'reloaded'], ops=3, seq=s, stamp=0, thorough=dict(ops=4))
job('P06', 'long', 'p06long', '1 or 2 SETs with keys of 1-255 and values of 1-70000 bytes, DEL, rotation, restart or reload, more', ['end', 'two', 'deleted', 'jumped', 'restarted', 'reloaded'], model=False, max_steps=240000000, defs=['-DVALMAX=70000', '-DVFS_FILESIZE=80000', '-DVFS_NODES=24', '-DCONN_RX=75000'])
job('P06', 'stamp', 'p06', '2 ops with client-given timestamps', ['end', 'jumped'], ops=2, stamp=1)

# ---------------------------------------------------------------- P07 integrity
meta('P07', 'values of 1-17 arbitrary bytes and keys of 1-255 with values of 40-65560 bytes; every change of one byte (of long values: in their last 20 bytes, one bit elsewhere), of 4 neighbouring bytes, or of the checksum; checksums of every buffer up to 25 bytes', 'longer values; damage that happens to have the same CRC-32C (more than 4 bytes wide)')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P07', n, 'p07', 'one damaged entry among two', ['end', 'payload-byte', 'payload-burst', 'checksum', 'truncated', 'not-last'], seq=s)
job('P07', 'long', 'p07long', 'one damaged entry, keys of 1-255 and values of 40-65560 bytes', ['end', 'restarted', 'end-damaged', 'start-damaged', 'middle-damaged', 'checksum'], model=False, max_steps=240000000, defs=['-DVALMAX=66000', '-DVFS_FILESIZE=70000', '-DVFS_NODES=24', '-DCONN_RX=75000'])
job('P07', 'crc', 'p07crc', 'every buffer of 0-25 bytes', ['end'], model=False, thorough=dict(max=40))

# ---------------------------------------------------------------- P08 scans
C8 = ['end', 'full', 'mutated', 'keycur', 'paged', 'cursor-entry-changed']
meta('P08', '3 operations on 3 keys, pages of 1, 2 or all entries, one change between pages; 70 entries in one reply', 'longer histories; more than one change during a walk')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P08', n, 'p08', '3 ops, page, change, rest', C8, ops=3, seq=s, thorough=dict(ops=4))
    job('P08', n + '-jump', 'p08', '3 ops with rotations, page, change, rest', C8, ops=3, seq=s, jump=1)
for n, s in (('user', 0), ('seq', 1)):
    job('P08', n + '-late', 'p08', '2 ops, page, change, rest, in 2038', ['end', 'full'], ops=2, seq=s, late=1)
job('P08', 'prefix', 'p08prefix', '3 keys of 1-3 arbitrary bytes, any prefix of 1-3 bytes', ['end', 'several', 'some', 'none', 'restarted'])
job('P08', 'many', 'p08many', '70 entries of 3 bytes or 6 of 255 bytes, prefix search', ['end', 'long-keys', 'paged', 'more-than-64-at-once'], model=False, defs=['-DVFS_FILESIZE=8192', '-DCONN_TX=16384'])

# ---------------------------------------------------------------- P10 history
meta('P10', '4 operations on 2 keys with rotations and a restart', 'longer version chains')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P10', n, 'p10', '4 ops, restart', ['end', 'restarted', 'older-version', 'foreign-cursor'], ops=4, vlens=2, seq=s, thorough=dict(ops=5))
    job('P10', n + '-jump', 'p10', '3 ops with rotations, restart', ['end', 'restarted', 'older-version', 'jumped'], ops=3, vlens=2, seq=s, jump=1)

job('P10', 'prefix', 'p10', '3 ops on 2 keys of 1-2 arbitrary bytes, one possibly a prefix of the other', ['end', 'older-version', 'foreign-cursor'], ops=3, vlens=2, klens=1)

# ---------------------------------------------------------------- P09 crafted cursors
meta('P09', 'any cursor of the right length whose key length is one of 0,1,3,8,9,255 and whose file number is one of 0,1,2,255,256,2^31-1,2^32-1, and of wrong lengths, on six small data sets', 'cursors whose file number is another value (behaves as any absent file)')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P09', n + '-scan', 'p09', '6 data sets, any scan cursor', ['end', 'refused', 'accepted', 'wrong-length'], seq=s, what=0)
    job('P09', n + '-history', 'p09', '6 data sets, any history cursor', ['end', 'refused', 'accepted', 'wrong-length'], seq=s, what=1)

# ---------------------------------------------------------------- P12 namespaces are isolated
meta('P12', 'three namespaces with similar names, the same two arbitrary keys in each, one operation, a rotation, reload, lock or removal of one namespace, one operation, a restart', 'more namespaces; longer histories')
C12 = ['end', 'jumped', 'reloaded', 'locked', 'removed', 'restarted']
job('P12', 'user', 'p12', 'op, event, op, restart', C12, ops=2, pairs=2)
job('P12', 'long', 'p12', 'names of 126 to 128 bytes, one the beginning of the other or differing in the last byte', C12, ops=2, pairs=4, defs=['-DVFS_PATH=512'])
job('P12', 'mixed', 'p12', 'op, event, op, restart; one namespace sequential', C12, ops=2, mix=1, pairs=1)

for n, s in (('', 0), ('-seq', 1)):
    job('P12', 'many' + n, 'p12many', '5 creations, removals or reloads of 3 namespaces in any order, restart', ['end', 'created', 'removed', 'reloaded', 'restarted'], model=False, seq=s, steps=5, defs=['-DVFS_NODES=64'], thorough=dict(steps=6))

# ---------------------------------------------------------------- P11 rotation
meta('P11', 'by size: 3 operations with file limits of 60-86 bytes; on request: 12 rotations with a write, an update and a delete at any place between; by time: 4 steps', 'file numbers over 99; limits larger than a few records')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P11', n + '-size', 'p11', '3 ops, value sizes 1 or 6, three limits', ['end', 'rotated'], how=0, ops=3, seq=s, thorough=dict(ops=4))
    job('P11', n + '-many', 'p11', '12 rotations', ['end', 'many-files'], how=1, seq=s)
    job('P11', n + '-time', 'p11', '4 steps: writes or time passing', ['end', 'rotated'], how=2, ops=4, seq=s)
job('P11', 'several-time', 'p11', 'four namespaces, any subset of them written, twice', ['end', 'all-rotated'], how=3, defs=['-DVFS_NODES=64'])

# ---------------------------------------------------------------- P13 access states
meta('P13', 'one of four states (locked, frozen, write-once, read-only client), 2 operations out of 6 updates and 14 reads (with cursors taken before), then the state is lifted; any two of them, one lifted after an operation', 'more than two states; longer sequences')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P13', n, 'p13', '2 operations in each state', ['end', 'refused', 'inserted', 'flush-refused', 'frozen-read', 'frozen-cursor', 'made-private', 'other-client-writes'], ops=2, seq=s)
    job('P13', n + '-reload', 'p13', 'one operation in each state after a reload', ['end', 'refused', 'inserted', 'flush-refused', 'reloaded'], ops=1, seq=s, reload=1)

for s, n in ((0, 'user'), (1, 'seq')):
    job('P13', n + '-both', 'p13', 'two states at once, an operation, one of them lifted, another operation', ['end', 'both', 'refused', 'flush-refused', 'frozen-read', 'reloaded'], ops=1, seq=s, both=1, reload=1)

# ---------------------------------------------------------------- P14 administrator only
meta('P14', '21 forms of the reserved commands, also with one argument more, less or empty and in other letter cases, in both modes, by a client that never authenticated, gave any wrong password of up to 5 bytes, reuses the descriptor of an administrator, selected a protected namespace, or came after a restart', 'wrong passwords over 5 bytes (see P15); other arguments')
for n, s in (('', 0), ('seq-', 1)):
    job('P14', n + 'all', 'p14', 'one reserved command, another one, then the administrator', ['end', 'wrong-password', 'descriptor-reused', 'selected', 'restarted'], seq=s)
    job('P14', n + 'variants', 'p14', 'one reserved command with an argument more, less or empty, or in other letters', ['end', 'wrong-password', 'descriptor-reused', 'selected', 'restarted'], seq=s, variants=1, two=0)

# ---------------------------------------------------------------- P15 authentication
meta('P15', 'four passwords of 1-70 characters; any plain password of about the right length or of 128, 129, 255, 300 bytes; any answer of 0, 16, 39-41 bytes to a challenge; every sequence of 4 steps of two clients; any 64 bits of randomness', 'strength of SHA-1; randomness of the operating system; timing of the comparison')
job('P15', 'plain', 'p15', 'one attempt with any bytes', ['end', 'right', 'wrong'], what=0)
job('P15', 'secure', 'p15', 'one answer with any bytes', ['end', 'right', 'wrong'], what=1)
job('P15', 'once', 'p15', '4 steps by two clients', ['end', 'granted', 'replay-refused', 'foreign-refused'], what=2, ops=4, thorough=dict(ops=5))
job('P15', 'fresh', 'p15', 'two challenges', ['end'], what=3)

# ---------------------------------------------------------------- P16 SELECT
C16 = ['end', 'granted', 'refused', 'read-only', 'restarted', 'spent']
meta('P16', 'an open, a protected (public or private, password of 2 or 63 characters) and the default namespace (with and without protection); one attempt with any password bytes or any digest, or two attempts of every kind', 'passwords changed while sessions are open; longer sequences')
job('P16', 'bytes', 'p16', 'one attempt with any bytes', C16, ops=1, sym=1)
job('P16', 'bytes-protect', 'p16', 'one attempt with any bytes, protected default namespace', C16, ops=1, sym=1, protect=1)
C16b = [c for c in C16 if c != 'restarted']
job('P16', 'set', 'p16set', 'any password bytes set (lengths 0-3, 62-64), any attempt of that length or one more or less', ['end', 'set', 'cleared', 'refused', 'granted', 'denied'], model=False)
job('P16', 'twice', 'p16', 'two attempts', C16b, ops=2, sym=0)
job('P16', 'twice-protect', 'p16', 'two attempts, protected default namespace', C16b, ops=2, sym=0, protect=1)

# ---------------------------------------------------------------- P17 namespace names
meta('P17', 'every name of 0-3 bytes (creation) or 0-7 bytes (other commands), and names of 127-300 bytes with an arbitrary last byte', 'other names of 8-300 bytes; symbolic links and unusual file systems')
job('P17', 'create', 'p17', 'any name of up to 3 bytes', ['end', 'created', 'refused', 'restarted'], what=0, max=3)
job('P17', 'create-long', 'p17', 'names of 127-300 bytes', ['end', 'created', 'refused', 'restarted'], what=0, long=1, defs=['-DVFS_PATH=512'])
job('P17', 'use', 'p17', 'any name of up to 7 bytes', ['end', 'known', 'unknown'], what=1, max=7)
job('P17', 'pair', 'p17', 'two names of 2-128 bytes alike but for one byte or their length', ['end', 'pair', 'pair-restarted'], what=2, defs=['-DVFS_PATH=512'])
job('P17', 'dirs', 'p17dirs', 'data and index directories with paths of 100-2040 bytes, namespace names of 1, 60, 128 bytes', ['end', 'restarted', 'deleted'], model=False, max_steps=120000000, defs=['-DVFS_PATH=2304', '-DVFS_NODES=64'])
job('P17', 'use-long', 'p17', 'names of 127-300 bytes', ['end', 'unknown'], what=1, long=1, defs=['-DVFS_PATH=512'])

# ---------------------------------------------------------------- P18 namespace removal
meta('P18', 'three namespaces with the same two arbitrary keys, up to 3 operations and 2 rotations (or 105) in the one removed, sessions of it idle, in the middle of a request or waiting; created again, restart', 'removal interrupted by a crash (see DESIGN.md); failing file removal')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P18', n, 'p18', '3 ops, removal, creation, restart', ['end', 'jumped', 'waiting', 'again', 'restarted'], seq=s)

for s, n in ((0, 'user'), (1, 'seq')):
    job('P18', n + '-many', 'p18', '1 op, 105 rotations, removal, creation, restart', ['end', 'many-files', 'waiting', 'again', 'restarted'], seq=s, ops=1, more=105, max_steps=240000000, defs=['-DVFS_NODES=260', '-DVFS_FILESIZE=1024'])

# ---------------------------------------------------------------- P19 settings persist
meta('P19', '3 changes of arbitrary properties (passwords of 1, 3 or 63 bytes with arbitrary first and last byte, four limits), restarts or a reload; one change or creation killed at any write', 'power loss; writes torn in the middle; locks (which are not kept by design)')
job('P19', 'keep', 'p19', '2 changes, restarts', ['end', 'cleared', 'reloaded'], ops=2, thorough=dict(ops=3))
job('P19', 'mode', 'p19', '2 changes, including the mode', ['end', 'cleared', 'reloaded'], ops=2, mode=1)
job('P19', 'crash', 'p19', '2 changes, the last one killed', ['end', 'confirmed', 'interrupted'], ops=2, crash=1)
job('P19', 'create', 'p19', 'creation killed', ['end', 'lost', 'kept', 'early'], crash=2)

# ---------------------------------------------------------------- P20 FLUSH
meta('P20', 'two namespaces with the same two arbitrary keys, up to 3 operations with rotations (or 105 rotations), flush, new operations, restart; flush killed before any of its file removals or creations', 'failing file removal; longer histories')
C20 = ['end', 'jumped', 'restarted']
for s, n in ((0, 'user'), (1, 'seq')):
    job('P20', n, 'p20', '3 ops, flush, ops, restart', C20, seq=s)
    job('P20', n + '-mixed', 'p20', 'as above, mode chosen per namespace', C20, seq=s, mix=1, ops=1)
    job('P20', n + '-crash', 'p20', 'flush killed', ['end', 'jumped', 'interrupted', 'done'], seq=s, crash=1, ops=1 if s else 2)

for s, n in ((0, 'user'), (1, 'seq')):
    job('P20', n + '-many', 'p20', '1 op, 105 rotations, flush, new operations, restart', C20[:1] + C20[2:] + ['many-files'], seq=s, ops=1, more=105, max_steps=240000000, defs=['-DVFS_NODES=260', '-DVFS_FILESIZE=1024'])

# ---------------------------------------------------------------- P21 protocol
meta('P21', 'a pipeline of 5 requests with an arbitrary value cut at every place, sent byte by byte, read in parts of 1-9 bytes, or interleaved with another client; two arbitrary bytes at every place of a pipeline; 20 forms of numbers in 3 places; requests ending within 46 bytes of the end of the 8192-byte buffer; lines of 8189-8194 bytes', 'arguments of more than 8 kB; more than two arbitrary bytes at once; more than three requests in flight at the buffer limit')
job('P21', 'cut', 'p21', '5 requests cut at every place', ['end', 'well-formed', 'interleaved'], what=0, model=False)
job('P21', 'byte', 'p21', 'one arbitrary byte anywhere, in one piece or byte by byte', ['end', 'well-formed', 'malformed', 'nothing-yet', 'bytewise'], what=1, width=1, model=False)
job('P21', 'bytes', 'p21', 'two arbitrary bytes anywhere', ['end', 'well-formed', 'malformed', 'nothing-yet'], what=1, whole=1, model=False, thorough=dict(whole=0))
job('P21', 'numbers', 'p21', '20 numbers in 3 places', ['end', 'well-formed', 'malformed', 'value'], what=2, model=False)
job('P21', 'limit', 'p21', 'requests around the buffer size', ['end', 'well-formed'], what=3, model=False, defs=['-DCONN_RX=24000'])
job('P21', 'lines', 'p21', 'endless lines', ['end', 'hangup'], what=4, model=False, defs=['-DCONN_RX=24000'])
job('P21', 'leave', 'p21', 'the client stops sending', ['end', 'answered'], what=5, model=False)

# ---------------------------------------------------------------- P22 slow clients
meta('P22', '2 requests out of 8 kinds (thorough 3), the connection accepting 0, 1, 4, 5, 9 or 40 bytes at first, then 1 or 7 or nothing between requests, then 1-21 bytes at a time or everything; replies of up to 1.3 kB, or of 70 kB in parts of 4000 to 65537 bytes; leaving at any of these points', 'replies of several MB; more than one slow client at a time')
C22 = ['end', 'pending', 'byte-by-byte', 'notified', 'gone']
job('P22', 'small', 'p22', '2 requests', C22, ops=2, model=False, thorough=dict(ops=3))
job('P22', 'large', 'p22', '1 request, values of 600 bytes', C22, ops=1, big=1, model=False)
job('P22', 'huge', 'p22', '1 request, values of 70000 bytes, taken in parts of 4000 to 65537 bytes', [c for c in C22 if c != 'byte-by-byte'], ops=1, big=2, model=False, defs=['-DVALMAX=70000', '-DVFS_FILESIZE=80000', '-DVFS_NODES=24', '-DCONN_RX=75000', '-DCONN_TX=160000'])

# ---------------------------------------------------------------- P23 WAIT
meta('P23', 'four clients in two namespaces, one waiting, then 3 steps of commands, waits, time or leaving; any elapsed time up to 4000 s at any microsecond; any timeout of up to 8 digits; any command name of up to 4 bytes', 'more waiting clients at once; timeouts given as other than digits')
job('P23', 'histories', 'p23', '3 steps', ['end', 'woken', 'woken-by-any', 'left', 'timed-out', 'still-waiting'], what=0, ops=3, model=False, thorough=dict(ops=4))
job('P23', 'time', 'p23', 'any elapsed time', ['end', 'timed-out', 'still-waiting'], what=1, lower=1, model=False)
job('P23', 'timeout', 'p23', 'any timeout argument', ['end', 'accepted', 'refused'], what=2, model=False)
job('P23', 'name', 'p23', 'any command name', ['end', 'accepted', 'refused'], what=3, model=False)

# ---------------------------------------------------------------- P24 dirty index files
meta('P24', '2, 9, 17 or 70 index files with one entry each, restart or reload, 2 updates, deletions, rotations or resets of the first, eighth, ninth or last entry', 'more files; several entries per file')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P24', n, 'p24', '2 steps', ['end', 'listed', 'high-listed', 'restarted', 'reloaded', 'reset'], seq=s, ops=2, model=False, defs=['-DVFS_NODES=64'], thorough=dict(ops=3, layouts=5))

job('P24', 'far', 'p24', '70 files, 2 steps on the first, 32nd, 33rd, 64th, 65th or last', ['end', 'high-listed', 'restarted', 'reloaded', 'reset'], seq=0, ops=2, far=70, model=False, defs=['-DVFS_NODES=160', '-DMAXF=74'], max_steps=120000000)

# ---------------------------------------------------------------- P25 size limit
meta('P25', 'any limit of one digit (thorough: two), or given as program option, set at first or after the first write; then 2 steps (thorough 3): writes of 0, 3 or 7 bytes, deletions, restarts or reloads', 'larger limits; longer histories')
C25 = ['end', 'exactly-full', 'fits', 'refused', 'restarted']
for s, n in ((0, 'user'), (1, 'seq')):
    job('P25', n, 'p25', '2 steps in the default namespace', C25[:1] + C25[2:], seq=s, ops=2, thorough=dict(ops=3))
    job('P25', n + '-large', 'p25', '1 step in another namespace, limits around 2^31, 2^32, 2^33, 2^40, 2^63', [c for c in C25 if c not in ('refused', 'exactly-full', 'restarted')] + ['restarted'], seq=s, ops=1, other=1, large=1)
    job('P25', n + '-other', 'p25', '2 steps in another namespace', C25, seq=s, ops=2, other=1, thorough=dict(ops=3, digits=2))

# ---------------------------------------------------------------- P26 power loss
meta('P26', '--sync; 3 operations (thorough 4), or 2 operations with rotations between them, or 2 operations under --synctime 30 and one more after the period without rotation, or 1 operation and one interrupted at any write, then power loss keeping of every file either all or only what was synced; one more operation and power loss', 'without --sync (nothing is promised); creation and removal of files are taken as durable; writes torn within one call')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P26', n, 'p26', '3 operations, power loss', ['end', 'power-lost'], seq=s, ops=3, thorough=dict(ops=4))
    job('P26', n + '-jump', 'p26', '2 operations with rotations, power loss', ['end', 'power-lost', 'jumped'], seq=s, ops=2, jump=1)
    job('P26', n + '-period', 'p26', '--synctime: 2 operations, one after the period, power loss', ['end', 'power-lost', 'period-over'], seq=s, ops=2, period=1)
    job('P26', n + '-mid', 'p26', '1 operation, 1 interrupted, power loss', ['end', 'power-lost', 'in-the-middle'], seq=s, ops=1, mid=1, thorough=dict(ops=2))

# ---------------------------------------------------------------- P27 replication
meta('P27', 'two clients and one or two mirrors (one of them slow), 2 requests of 8 kinds (thorough 3) with arbitrary argument bytes in two or three namespaces; replay of the stream on a second instance; any owner number', 'timestamps of the stream are those of the modelled clock; the synchronisation utilities themselves (they need a client library which is not here)')
job('P27', 'stream', 'p27', '2 requests', ['end', 'mirrored', 'slow', 'second'], what=0, ops=2, model=False, thorough=dict(ops=3))
job('P27', 'replay', 'p27', '2 requests, replayed', ['end', 'mirrored', 'replayed', 'returned'], what=1, ops=2, model=False, defs=['-DVFS_NODES=64'], thorough=dict(ops=3))
job('P27', 'owner', 'p27', 'any owner', ['end', 'own', 'foreign'], what=2, model=False)
job('P27', 'rights', 'p27', 'administrators and others', ['end', 'master', 'ordinary'], what=3, model=False)
job('P27', 'large', 'p27', 'requests of 200 to 70000 bytes, to a prompt or slow mirror', ['end', 'mirrored', 'slow'], what=4, model=False, defs=['-DWANT=160000', '-DVFS_FILESIZE=160000', '-DVFS_NODES=24', '-DCONN_RX=75000', '-DCONN_TX=160000'])

# ---------------------------------------------------------------- P30 resources
meta('P30', '52 rounds of 1 to 6 requests (every command in accepted and refused forms) with arbitrary argument bytes, repeated; requests cut and damaged at any byte by clients which leave; 7 rounds of writing requests on existing files with any of the first 5 disk writes failing', 'memory which follows the stored content; rotations; failures to create files (the server stops)')
job('P30', 'requests', 'p30', 'every request twice', ['end', 'round'], what=0, model=False, defs=['-DVFS_NODES=64', '-DCONN_TX=16384'])
job('P30', 'requests-seq', 'p30', 'every request twice, sequential mode', ['end', 'round'], what=0, seq=1, model=False, defs=['-DVFS_NODES=64', '-DCONN_TX=16384'])
job('P30', 'old', 'p30', 'every request twice, content in older files', ['end', 'round'], what=0, old=1, model=False, defs=['-DVFS_NODES=64', '-DCONN_TX=16384'])
job('P30', 'old-seq', 'p30', 'the same, sequential mode', ['end', 'round'], what=0, seq=1, old=1, model=False, defs=['-DVFS_NODES=64', '-DCONN_TX=16384'])
job('P30', 'leaving', 'p30', 'leaving at any byte', ['end', 'cut', 'whole'], what=1, model=False)
job('P30', 'faults', 'p30', 'failing writes', ['end', 'failed'], what=2, model=False, defs=['-DVFS_NODES=64'])

# ---------------------------------------------------------------- P34 hooks
meta('P34', 'a start and 2 (thorough 3) of 9 events (creation, change, reload, removal of a namespace, rotations, ends of hooks with any exit code or a signal, passing time, termination signals), each hook followed into the child as well; any outcome of the blocking hooks; hooks which cannot be started', 'other namespace names; more than 16 hooks at once; the crash handler')
for n, s in (('user', 0), ('seq', 1)):
    job('P34', n, 'p34', '3 events', ['end', 'child', 'ended', 'stopped', 'forgotten'], seq=s, ops=3, model=False, thorough=dict(ops=4))
    job('P34', n + '-many', 'p34', '2 events after 4-10 hooks', ['end', 'ended', 'stopped', 'forgotten'], seq=s, ops=2, children=0, many=1, model=False, defs=['-DCONN_TX=16384'])
    job('P34', n + '-long', 'p34', '3 events, seen from the server only', ['end', 'ended', 'stopped', 'forgotten', 'dirty', 'not-saved'], seq=s, ops=3, children=0, model=False, thorough=dict(ops=4))
    job('P34', n + '-reuse', 'p34', '2 events, process numbers given again', ['end', 'ended', 'stopped', 'forgotten', 'number-reused'], seq=s, ops=2, children=0, reuse=1, model=False)
    job('P34', n + '-fail', 'p34', '2 events, hooks may not start', ['end', 'not-started', 'went-on'], seq=s, ops=2, children=0, fail=1, model=False, thorough=dict(ops=3))
    job('P34', n + '-missing', 'p34', 'absent data file', ['end', 'restored', 'refused', 'later', 'child'], seq=s, what=2, model=False)
job('P34', 'dirs', 'p34', 'directories with paths of 300-2000 bytes', ['end'], what=3, model=False, max_steps=120000000, defs=['-DVFS_PATH=2304', '-DVFS_NODES=64', '-DCONN_TX=65536'])
job('P34', 'ready', 'p34', 'outcome of the ready hook', ['end', 'up', 'down', 'child'], what=1, model=False)

# ---------------------------------------------------------------- P28 offloaded data files
meta('P28', '1 write and 2 (thorough 3) further operations with a rotation before each, any subset of the older data files away, restart or reload, 1 (thorough 2) more operation of any kind; then the files come back', 'current data file removed (not supported); longer histories')
for n, s in (('user', 0), ('seq', 1)):
    job('P28', n, 'p28', '3 operations, any older data files away, 1 operation', ['end', 'away', 'deleted-away', 'restarted'], seq=s, ops=2, then=1, thorough=dict(ops=3, then=2))

# ---------------------------------------------------------------- P29 one answer per request
meta('P29', '33 commands with 0 to 2 arguments of up to 18 kinds, and arbitrary or misspelt command names, in both modes, with and without administrator rights', 'three or more arguments of every kind; WAIT, MIRROR and MASTER (see P24 and P26), STOP (a debugging aid)')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P29', n, 'p29', 'any of 33 commands with 0-2 arguments of 9 kinds', ['end', 'error', 'success'], seq=s)
    job('P29', n + '-plain', 'p29', 'the same without administrator rights', ['end', 'error', 'success'], seq=s, admin=1, kinds=4, lite=1)
    job('P29', n + '-words', 'p29', 'any of 33 commands with 2 arguments out of 9 other words', ['end', 'error', 'success'], seq=s, base=8, kinds=10, lite=1)
    job('P29', n + '-three', 'p29', 'any of 33 commands with 3 arguments out of 4 kinds', ['end', 'error', 'success'], seq=s, args=3, exact=1, kinds=4, lite=1)
    job('P29', n + '-unknown', 'p29', 'any name of 1-4 bytes or one byte away from a command', ['end', 'error', 'any-name'], seq=s, unknown=1, args=1, kinds=2)
    job('P29', n + '-two', 'p29', 'two commands in a row', ['end', 'error', 'success', 'changed'], seq=s, steps=2, args=1, base=0, kinds=2, lite=1, thorough=dict(kinds=4))
    job('P29', n + '-lock', 'p29', 'in a locked namespace', ['end', 'error', 'success', 'empty'], seq=s, state=1, args=1)
    job('P29', n + '-gone', 'p29', 'in a namespace which was removed', ['end', 'empty'], seq=s, state=2, args=1)

# ---------------------------------------------------------------- P35 raw records
meta('P35', '3 operations (set, empty and longer values, given times, deletion, rotation, reload), every record read back; the copy caught up after any of them; any offset', 'longer histories; copies of sequential namespaces; records of other kinds')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P35', n + '-each', 'p35', '3 ops, then every record of every file', ['end', 'jumped', 'reloaded', 'deletion'], ops=3, seq=s, what=0, thorough=dict(ops=4))
    job('P35', n + '-any', 'p35', '2 ops, then any offset and odd numbers', ['end'], ops=2, seq=s, what=2, reload=0)
job('P35', 'copy', 'p35', '3 ops, copied into another namespace', ['end', 'jumped', 'reloaded', 'deletion', 'caught-up'], ops=3, what=1, thorough=dict(ops=4))

meta('P31', '2 (thorough 3) operations of any kind on a namespace (set, empty and other values, deletion, rotation, reload), one setting, a restart; every field asked after each step, with two layouts of the partitions; one failing write at any place of an operation', 'longer histories; failing reads')
for n, s in (('user', 0), ('seq', 1)):
    job('P31', n, 'p31', '2 ops, setting, restart', (['announced'] if s else []) + ['end', 'reloaded', 'restarted'], seq=s, ops=2, thorough=dict(ops=3))
    job('P31', n + '-fail', 'p31', 'a write fails', ['end', 'index-failure', 'data-failure'], seq=s, what=1)
    job('P31', n + '-counters', 'p31', '2 requests of two clients, INFO after each', ['end', 'denied', 'in-parts', 'written'], seq=s, what=2, admin=1, ops=2, thorough=dict(ops=3))
job('P31', 'mixed', 'p31', '1 op, setting, restart; namespaces of different modes, asked by a client without privileges', ['end', 'reloaded', 'restarted', 'not-administrator'], seq=1, mix=1, admin=1, ops=1, thorough=dict(ops=2))

# ---------------------------------------------------------------- P32 one instance
meta('P32', 'a lock held by another process on either directory or both, with and without content, directories swapped, seven spellings of one directory used twice; 2 (thorough 3) operations or administrative commands, then a signal, a stop or a kill, with or without power loss; every hook seen from the child; any --mode word of up to 6 bytes, 20 sizes, missing and unknown options', 'file systems without locks; symbolic links; one directory inside the other; two sockets; numbers in other options (not checked by the program)')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P32', n + '-lock', 'p32', 'another process holds a lock', ['end', 'content'], seq=s, what=0, ops=2)
    job('P32', n + '-end', 'p32', '1 op, 2 events, signal, stop or kill', ['end', 'signal', 'stop', 'killed', 'power-loss'], seq=s, what=2, events=2, thorough=dict(events=3))
    job('P32', n + '-end-jump', 'p32', '1 op, 1 event with rotations and --secure, signal, stop or kill', ['end', 'signal', 'stop', 'killed', 'power-loss'], seq=s, what=2, events=1, jump=1, thorough=dict(events=2))
    job('P32', n + '-hooks', 'p32', 'what a hook inherits', ['end', 'child'], seq=s, what=3)
job('P32', 'same', 'p32', 'one directory for both', ['end', 'refused'], what=1)
job('P32', 'options', 'p32', 'one option', ['end', 'refused', 'mode-accepted', 'size-accepted'], what=4)

# ---------------------------------------------------------------- P33 library
meta('P33', '2 operations (thorough 3), one by the server, one after it by the library opened again twice; values up to 2 bytes, files full after one or two entries, limits up to 3 bytes, the 1st to 4th write failing once or from there on, two different values of 5 or 6 bytes with the same checksum, keys of 256 to 258 bytes', 'reopening after a crash (the files are those of the server, P04); worm mode, frozen and locked namespaces, which the library leaves to its caller')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P33', n, 'p33', '2 ops by the library, one by the server, one by the library', ['end', 'updated', 'deleted', 'unchanged'], seq=s, ops=2, thorough=dict(ops=3))
    job('P33', n + '-rotate', 'p33', '2 ops, files full after one or two entries', ['end', 'updated', 'rotated', 'one file'], seq=s, ops=2, rotate=1, vlens=2, thorough=dict(ops=3))
    job('P33', n + '-own', 'p33', '2 ops in a namespace made by the server, with a limit, mixed mode', ['end', 'updated', 'full'], seq=s, ops=2, own=1, mixed=1)
    job('P33', n + '-fault', 'p33', '1 op, then a write fails', ['end', 'failed', 'not-reached'], seq=s, ops=1, vlens=2, what=1)
    job('P33', n + '-alike', 'p33', 'two values with the same checksum', ['end'], seq=s, what=2)
    job('P33', n + '-unreadable', 'p33', '2 ops, the end of the file missing', ['end', 'other', 'unreadable'], seq=s, what=3, ops=2)
job('P33', 'mixed', 'p33', '2 ops with default settings', ['end', 'updated', 'deleted', 'unchanged'], seq=0, ops=2, mixed=1)

# ---------------------------------------------------------------- P36 offline tools
meta('P36', '3 operations (thorough 4) with rotations, the index files or their directory lost and rebuilt, also up to an earlier moment; every combination of settings with passwords of up to 2 bytes; one damaged byte or any cut of a data file, 256 damaged records; the listings on the same histories', 'times given by clients; rebuilding from damaged data files; earlier versions of a value after a compaction (the tool drops them); what the listings print; the tool which is not built (tools/compaction), scripts, and the programs of utilities/ which talk to several servers')
for s, n in ((0, 'user'), (1, 'seq')):
    job('P36', n, 'p36', '3 ops, index files lost, rebuilt', FULL + ['directory-gone'], seq=s, ops=3, target='daemon+index-rebuild', thorough=dict(ops=4))
    job('P36', n + '-jump', 'p36', '3 ops with rotations, index files lost, rebuilt', FULL + ['directory-gone', 'jumped'], seq=s, ops=3, jump=1, target='daemon+index-rebuild')
    job('P36', n + '-other', 'p36', '2 ops in a namespace of its own, index files lost, rebuilt', ['end', 'directory-gone'], seq=s, ops=2, other=1, restart=1, target='daemon+index-rebuild')
    job('P36', n + '-back', 'p36', '3 ops with rotations, rebuilt as of an earlier moment', ['end', 'jumped'], seq=s, ops=3, jump=1, what=1, target='daemon+index-rebuild')
    job('P36', n + '-editor', 'p36', 'any settings', ['end', 'protected', 'open'], seq=s, what=2, target='daemon+namespace-editor')
    job('P36', n + '-integrity', 'p36', '2 ops, one damage', ['end', 'damaged', 'intact', 'payload', 'cut'], seq=s, what=3, ops=2, target='daemon+integrity-check', thorough=dict(ops=3))
    job('P36', n + '-compact', 'p36', '3 ops with rotations, compacted', ['end', 'jumped', 'smaller'], seq=s, what=6, ops=3, target='daemon+quick-compaction')
    job('P36', n + '-compact-other', 'p36', '2 ops in a namespace of its own, compacted', ['end', 'jumped'], seq=s, what=6, ops=2, other=1, restart=1, target='daemon+quick-compaction')
    job('P36', n + '-index-dump', 'p36', '3 ops with rotations', ['end'], seq=s, what=4, ops=3, target='daemon+index-dump')
job('P36', 'integrity-many', 'p36', '256 damaged records', ['end', 'damaged', 'intact'], seq=1, what=3, many=1, target='daemon+integrity-check', defs=['-DVFS_FILESIZE=14000', '-DVFS_NODES=24'])
job('P36', 'namespace-dump', 'p36', '2 ops', ['end'], what=5, ops=2, target='daemon+namespace-dump')

# ---------------------------------------------------------------- P37 copies between servers
meta('P37', '3 operations before the copy (thorough 4), one more write of another client at any moment of it, any write refused or lost by the target; following: 1-2 signals of 1-2 writes each', 'the client library and the target server are stand-ins (the replies of the source are those of the real daemon); db-mirror, which stops unfinished; updates of existing ids of a sequential namespace while following, which the source does not list again; deletions, which following does not carry')
for s in (0, 1):
    n = ['user', 'seq'][s]
    job('P37', n + '-copy', 'p37', '3 ops, copied', ['end', 'several', 'deleted', 'updated'], seq=s, ops=3, target='daemon+u:db-sync', thorough=dict(ops=4))
    job('P37', n + '-copy-meanwhile', 'p37', '2 ops, copied while somebody writes', ['end', 'meanwhile'], seq=s, ops=2, meddle=1, target='daemon+u:db-sync')
    job('P37', n + '-copy-refused', 'p37', '2 ops, the target refuses', ['end', 'refused'], seq=s, ops=2, refuse=1, target='daemon+u:db-sync')
    job('P37', n + '-copy-slow', 'p37', '3 ops with rotations, copied page by page', ['end', 'jumped', 'several'], seq=s, ops=3, jump=1, slow=1, target='daemon+u:db-sync')
    job('P37', n + '-follow', 'p37', '1 op, then followed', ['end', 'waited', 'followed'], seq=s, ops=1, replicate=1, rounds=2, target='daemon+u:db-replicate')
    job('P37', n + '-follow-meanwhile', 'p37', '1 op, then followed while somebody writes', ['end', 'waited', 'followed', 'meanwhile'], seq=s, ops=1, replicate=1, meddle=1, rounds=1, slow=1, target='daemon+u:db-replicate')
    job('P37', n + '-follow-several', 'p37', '1 op, then followed, several writes per signal', ['end', 'waited', 'followed'], seq=s, ops=1, replicate=1, more=1, slow=1, rounds=1, target='daemon+u:db-replicate')
    job('P37', n + '-follow-refused', 'p37', '1 op, then followed, the target refuses', ['end', 'waited', 'refused'], seq=s, ops=1, replicate=1, refuse=1, rounds=1, target='daemon+u:db-replicate')
job('P37', 'many-copy', 'p37', '300 given keys, copied', ['end'], seq=0, ops=0, many=300, target='daemon+u:db-sync', max_steps=120000000, defs=['-DVFS_FILESIZE=65536', '-DCONN_TX=32768', '-DCONN_RX=24000'])

# ---------------------------------------------------------------- P38 sessions
meta('P38', 'three clients, descriptors near and far apart in both orders, 3 steps (thorough 4): connecting, leaving, selecting, authenticating, a request in two parts, a reply not read, waiting; everybody asked after each step', 'more clients; longer sequences')
for n, s in (('open', 0), ('protect', 1)):
    job('P38', n, 'p38', '3 steps of 3 clients', ['end', 'connected', 'left', 'selected', 'selected-with-password', 'selected-read-only', 'auth', 'half', 'completed', 'stuck', 'read-again', 'waiting', 'waited'], protect=s, steps=3, model=False, defs=['-DCONN_MAX=36', '-DCONN_TX=1024', '-DCONN_RX=512'], thorough=dict(steps=4))
