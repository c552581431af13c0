"""Which scenarios, in which build variant and how many cases, decide each property.

R(scenario, quick cases, thorough cases, variant, ...).  `align` keeps the cases
that share one set of white-box tables in one process; `chunk` fixes the number
of cases per process."""

def R(scen, n, N, variant='plain', **k):
    return dict(variant=variant, scen=scen, n=n, N=N, **k)

PLAN = {}
def P(pid, groups, runs, rule, level='exploration', **k):
    PLAN[pid] = dict(groups=groups, runs=runs, rule=rule, level=level, **k)

DET = 'cases are a pure function of (scenario, index, VERIF_SEED); only explored inputs are decided'
REF = 'the reference implementations in harness/ref.cpp (cross-checked against OpenSSL at every start) are right'

P('C01', ['block'],
  [R('sm3.oneshot', 20000, 400000), R('sm3.chunks', 20000, 1000000), R('sm3.long', 4, 24, chunk=1, stall=400)],
  'one case = one message (length swept 0..N, then random, shaped content; sm3.long: up to >4 GB) hashed in one shot or in random chunks, two contexts interleaved; '
  'non-trivial = message not empty; distinct = distinct digests observed', assumptions=[DET, REF])
P('C02', ['block'], [R('sm4.block', 90000, 4000000), R('sm4.history', 12000, 400000)],
  'one case = one key (0..40 bytes) and a run of blocks, separate and in place, re-keying; *.history = several contexts with equal or confusable keys (same prefix up to a NUL, one bit apart) keyed, re-keyed and used in turn; distinct = distinct ciphertext blocks', assumptions=[DET, REF])
P('C03', ['block'], [R('aes.block', 90000, 4000000), R('aes.history', 12000, 400000)],
  'one case = one key (0..40 bytes) and a run of blocks, separate and in place, re-keying; *.history = several contexts with equal or confusable keys (same prefix up to a NUL, one bit apart) keyed, re-keyed and used in turn; distinct = distinct ciphertext blocks', assumptions=[DET, REF])
P('C04', ['block'], [R('wbaes.block', 900, 30000, chunk=10), R('wbaes.history', 200, 6000, chunk=5)],
  'one case = one key with fresh table randomness (random source seeded per case), then several hundred blocks; *.history = tables generated again for the same or a confusable key while the earlier ones stay in use; distinct = distinct ciphertext blocks', assumptions=[DET, REF])
P('C05', ['block'], [R('wbsm4.block', 900, 30000, chunk=8), R('wbsm4.history', 160, 6000, chunk=4)],
  'one case = one key, dummy-round count and fresh table randomness, one direction, then several hundred blocks; *.history = tables generated again for the same or a confusable key while the earlier ones stay in use; distinct = distinct output blocks', assumptions=[DET, REF])
P('C06', ['se'], [R('sewbsm4.block', 6000, 200000, chunk=40), R('sewbsm4.history', 800, 20000, chunk=20)],
  'one case = one key with fresh randomness, one direction, then 300 blocks; *.history = tables generated again for the same or a confusable key while the earlier ones stay in use; distinct = distinct output blocks', assumptions=[DET, REF])
P('C07', ['modes', 'rekey'], [R('cbc.roundtrip', 24000, 600000, align=24), R('cbc.refuse', 2400, 40000, align=24), R('cbc.huge', 1, 2, chunk=1, stall=600), R('rekey.cbc', 4800, 200000)],
  'one case = one message (length swept 0..139, then random up to 9000) through one of AES/SM4/WBAES/WBSM4 in both directions, output capacity and buffers drawn; '
  'cbc.refuse tries every capacity shortfall and every partial-block ciphertext length; rekey.* = histories of cipher contexts keyed again in place, freed and allocated again under the modes; distinct = distinct ciphertexts', assumptions=[DET, REF])
P('C08', ['modes', 'rekey'], [R('gcm.messages', 19200, 600000, align=24), R('gcm.badtag', 4800, 120000, align=24), R('gcm.long', 6, 6, chunk=1, stall=400), R('gcm.huge', 3, 3, chunk=1, stall=600), R('gcm.interleave', 2400, 80000, align=24), R('rekey.gcm', 4800, 200000)],
  'one case = several messages in one GCM context (cipher, IV length 1..80, AAD, splits at multiples of 16, in place or not, J0 chosen so that the counter wraps), all tag lengths; '
  'gcm.long = lengths above 512 MB of message, AAD and IV; gcm.huge = more than 4 GB in one call; gcm.interleave = several contexts with messages in flight, steps taken in random order; rekey.* = histories of cipher contexts keyed again in place, freed and allocated again under the modes; distinct = distinct (data, tag) results', assumptions=[DET, REF])
P('C09', ['modes', 'thread'],
  [R('par.single', 480, 12000, 'tsan', chunk=10), R('par.many', 240, 8000, 'tsan', chunk=6), R('par.single', 3600, 100000, 'sched', align=24),
   R('par.many', 2400, 60000, 'sched', align=24), R('gcmpar.messages', 4800, 100000, align=24), R('gcmpar.huge', 2, 2, chunk=1, stall=600), R('gcmpar.interleave', 480, 20000, align=24), R('rekey.gcmpar', 1200, 60000, groups=['rekey'])],
  'one case = parallel (mixed with serial) GCM calls on 1..4 contexts at once with the block cipher wrapped so that every call in the region is logged and delayed; '
  'team size 1..4, start order and delays drawn; rekey.* = histories of cipher contexts keyed again in place, freed and allocated again under the modes; distinct = distinct interleavings (sequence of thread numbers at the block cipher); TSan watches every access',
  assumptions=[DET, REF, 'OpenMP constructs are executed by harness/x_gomp.cpp (pthreads) in the tsan and sched builds and by libgomp in the plain build'])
P('C10', ['modes'], [R('wbgcmee.messages', 7200, 200000, align=24), R('wbgcmee.long', 1, 4, chunk=1, stall=900), R('wbgcmee.huge', 1, 1, chunk=1, stall=600), R('wbgcmee.history', 96, 3000, chunk=3)],
  'one case = several messages in one context over fresh tables (one table set per 24 cases); wbgcmee.long = AAD above 512 MB (thorough: message, too); distinct = distinct (data, tag)', assumptions=[DET, REF])
P('C11', ['modes'], [R('wbgcmmask.messages', 4800, 120000, align=24), R('wbgcmmask.interleave', 960, 30000, align=24), R('wbgcmmask.history', 96, 2000, chunk=3), R('wbgcmmask.long', 2, 4, chunk=1, stall=600)],
  'one case = messages through a paired encryption/decryption context over fresh tables (one pair per 24 cases), plus forged ciphertext/AAD/IV/length variants; '
  'the per-position mask learnt from all observed (keystream, ciphertext) bytes must be a function and invertible; distinct = distinct (data, tag)', assumptions=[DET, REF])
P('C12', ['file'], [R('file.roundtrip', 7200, 150000, align=24), R('file.huge', 2, 6, chunk=1, stall=600)],
  'one case = one file (size swept over the chunk boundaries, then random) through one of the six file modes, container compared byte for byte with the in-memory mode, long paths, sources and bystanders named like temporary files; file.huge = files above 2 GB and 4 GB held in memory; distinct = distinct containers', assumptions=[DET, REF])
P('C13', ['file'], [R('file.tamper', 2400, 60000, align=24)],
  'one case = one encrypted file and dozens of tampered variants (every header byte, ciphertext bits, truncations, extensions, IV/AAD/key changes); distinct = distinct variants', assumptions=[DET])
P('C14', ['file', 'fault'], [R('fault.files', 3600, 60000, align=24), R('fault.keystore', 4800, 60000), R('fault.wbsm4key', 960, 16000, align=24)],
  'one case = one operation with a fault (open, read error, short read, write error, short write, seek, flush, close, rename/remove) at the n-th call of that kind, n enumerated past the last one; '
  'distinct = distinct (operation, fault kind, position)', level='fault_enumeration', assumptions=[DET, 'faults are injected at the stdio stream level (fopencookie) and at open/remove/rename'])
P('C15', ['fpe', 'rekey'], [R('fpe.ff1', 19200, 600000, align=24), R('fpe.ff1domain', 1200, 12000, align=24), R('fpe.interleave', 4800, 120000), R('fpe.ff1long', 3, 24, chunk=1, stall=600), R('fpe.ff1edge', 24, 400, chunk=2, stall=300), R('fpe.ff1tweak', 24, 240, chunk=2, stall=300), R('rekey.ff1', 4800, 200000)],
  'one case = one context (cipher, tweak, radix 2..36) and several numeral strings both ways, refused strings in between; fpe.interleave = several contexts of all four kinds used in turn; fpe.ff1long = 65536 and more digits; fpe.ff1edge = the lengths where radix^v is closest to a whole number of bytes; fpe.ff1tweak = tweaks of up to 16 MB; fpe.ff1domain enumerates whole domains of up to 2000 strings; rekey.* = histories of cipher contexts keyed again in place, freed and allocated again under the modes; distinct = distinct (radix, length, ciphertext)', assumptions=[DET, REF])
P('C16', ['fpe', 'rekey'], [R('fpe.ff3', 19200, 600000, align=24), R('fpe.ff3domain', 1200, 12000, align=24), R('fpe.interleave', 4800, 120000), R('rekey.ff3', 4800, 200000)],
  'one case = one context (cipher, tweak, radix 2..36) and several numeral strings both ways, refused strings in between; fpe.interleave = several contexts of all four kinds used in turn; fpe.ff3domain enumerates whole domains of up to 2000 strings; rekey.* = histories of cipher contexts keyed again in place, freed and allocated again under the modes; distinct = distinct (radix, length, ciphertext)',
  assumptions=[DET, REF, 'FF3 is judged with CIPH = the block cipher as keyed by the caller (the byte reversal of the key of SP 800-38G is left to the caller)'])
P('C17', ['fpe', 'rekey'], [R('fpe.cmac', 9600, 300000, align=24), R('fpe.cmaclong', 3, 24, chunk=1, stall=600), R('fpe.cmacedge', 24, 400, chunk=2, stall=300), R('fpe.cmactweak', 24, 240, chunk=2, stall=300), R('fpe.gmac', 9600, 300000, align=24), R('fpe.interleave', 4800, 120000), R('rekey.mac', 8000, 400000)],
  'one case = one MAC context, several strings both ways, tags compared across directions, contexts and histories and against changed plaintext, tweak and key; fpe.cmaclong/edge/tweak = long strings, lengths where radix^v is closest to a whole number of bytes, tweaks of up to 16 MB; rekey.* = histories of cipher contexts keyed again in place, freed and allocated again under the modes; distinct = distinct (text, tag)', assumptions=[DET, REF])
P('C18', ['fpe'], [R('app.phone', 14400, 600000, align=48), R('app.idcard', 14400, 600000, align=48)],
  'one case = one number (digits shaped, X endings), cipher, FFX choice, with and without sample, both ways; distinct = distinct masked numbers', assumptions=[DET, REF])
P('C19', ['fpe'], [R('app.cn', 14400, 600000, align=48), R('app.cnall', 81, 81)],
  'one case = one text (1..n characters), cipher, FFX choice, with and without sample, both ways; app.cnall covers every supported code point once; distinct = distinct masked texts', assumptions=[DET, REF],
  exhaustive='all 20736 supported code points occur in app.cnall')
P('C20', ['util'], [R('exkey.roundtrip', 960, 20000, align=24), R('exkey.refuse', 1920, 20000, align=24)],
  'one case = one exported key (file or bytes) imported into a context created with another mode and dummy count, blocks compared before and after the source is freed; '
  'exkey.refuse = truncated, extended and header-damaged key files; distinct = distinct results', assumptions=[DET, REF])
P('C21', ['util'], [R('pad.roundtrip', 40000, 600000), R('pad.keys', 20000, 200000), R('keystore.roundtrip', 6000, 60000), R('pad.huge', 1, 2, chunk=1, stall=400)],
  'one case = one message / key / structure through the helper pair (lengths swept, then random; pad.huge = 2 GB and 4 GB); distinct = distinct results', assumptions=[DET])
P('C22', ['matrix'], [R('matrix.algebra', 4000, 100000), R('matrix.pairs', 1500, 30000), R('matrix.all4', 16, 16, chunk=1), R('matrix.com', 2000, 40000), R('matrix.perm', 2000, 20000), R('matrix.random', 600, 6000), R('matrix.print', 300, 6000)],
  'one case = one set of random operands through every operation of one size, compared with bit-by-bit GF(2) arithmetic; matrix.all4 = all 65536 4x4 matrices; matrix.pairs = generated pairs multiplied out; distinct = distinct results', assumptions=[DET],
  exhaustive='all 65536 4x4 matrices (rank, inverse, transpose, vector products)')

# properties watched over the whole API surface
ALL = ['block', 'se', 'modes', 'file', 'fault', 'fpe', 'matrix', 'util', 'udf', 'rekey']
def surface(variant, q, N, leak=False, skip=(), **k):
    """every scenario with the given weight relative to the table below"""
    base = [('sm3.oneshot', 1200, 0), ('sm3.chunks', 1200, 0), ('sm4.block', 1200, 0), ('aes.block', 1200, 0), ('wbaes.block', 24, 0), ('wbsm4.block', 32, 0), ('sewbsm4.block', 240, 0), ('sm4.history', 480, 0), ('aes.history', 480, 0), ('wbsm4.history', 16, 0), ('sewbsm4.history', 40, 0),
            ('cbc.roundtrip', 720, 24), ('cbc.refuse', 240, 24), ('gcm.messages', 720, 24), ('gcm.badtag', 240, 24), ('gcmpar.messages', 480, 24), ('wbgcmee.messages', 480, 24), ('wbgcmmask.messages', 240, 24), ('gcm.interleave', 240, 24), ('wbgcmmask.interleave', 96, 24),
            ('file.roundtrip', 360, 24), ('file.tamper', 120, 24), ('fault.files', 240, 24), ('fault.keystore', 600, 0), ('fault.wbsm4key', 48, 24), ('cipher.fail', 320, 0),
            ('fpe.ff1', 960, 24), ('fpe.ff3', 960, 24), ('fpe.ff1domain', 24, 24), ('fpe.ff3domain', 24, 24), ('fpe.cmac', 720, 24), ('fpe.gmac', 720, 24), ('fpe.interleave', 480, 0), ('rekey.mac', 240, 0), ('rekey.cbc', 120, 0), ('rekey.gcm', 120, 0), ('rekey.gcmpar', 60, 0), ('app.phone', 960, 48), ('app.idcard', 960, 48), ('app.cn', 960, 48),
            ('matrix.algebra', 300, 0), ('matrix.pairs', 120, 0), ('matrix.com', 120, 0), ('matrix.perm', 120, 0), ('matrix.random', 60, 0), ('matrix.print', 60, 0),
            ('exkey.roundtrip', 24, 24), ('exkey.refuse', 72, 24), ('pad.roundtrip', 1200, 0), ('pad.keys', 600, 0), ('keystore.roundtrip', 480, 0), ('udf.rows', 480, 0), ('udf.init', 120, 0), ('udf5.rows', 480, 0), ('udf5.init', 120, 0)]
    out = []
    for s, n, al in base:
        if s in skip:
            continue
        d = dict(k)
        if al:
            d['align'] = al
        if leak:
            d['leak'] = True
        if s.startswith('udf5'):
            d['groups'] = ['udf5']
        out.append(R(s, max(al or 1, int(n * q)), max(al or 1, int(n * N)), variant, **d))
    return out

P('C23', ALL + ['stack'],
  surface('asan', 1, 30) + [R('stack.fpe', 8, 160, chunk=1, stall=300), R('stack.app', 24, 240, chunk=1, stall=300), R('stack.modes', 20, 200)] +
  [R('sm3.chunks', 40, 400, 'vg', chunk=10), R('sm4.block', 20, 400, 'vg', chunk=10), R('aes.block', 20, 400, 'vg', chunk=10), R('cbc.roundtrip', 24, 480, 'vg', align=24, stall=600), R('gcm.messages', 24, 480, 'vg', align=24, stall=600),
   R('gcmpar.messages', 24, 240, 'vg', align=24, stall=600), R('fpe.ff1', 24, 480, 'vg', align=24, stall=600), R('fpe.ff3', 24, 480, 'vg', align=24, stall=600), R('fpe.cmac', 24, 480, 'vg', align=24, stall=600), R('fpe.gmac', 24, 480, 'vg', align=24, stall=600),
   R('app.phone', 24, 480, 'vg', align=24, stall=600), R('app.cn', 24, 480, 'vg', align=24, stall=600), R('pad.roundtrip', 40, 400, 'vg', chunk=10), R('keystore.roundtrip', 20, 200, 'vg', chunk=10), R('udf.rows', 20, 400, 'vg', chunk=10), R('udf5.rows', 20, 400, 'vg', chunk=10, groups=['udf5']),
   R('file.roundtrip', 24, 480, 'vg', align=24, stall=600), R('matrix.algebra', 8, 200, 'vg')],
  'one case = one case of a scenario of the other properties, run on exactly sized heap buffers under ASan+UBSan (asan) or Memcheck (vg, which adds uses of uninitialised memory); every access and every arithmetic operation of the library is watched; stack.* = the stack depth of one call on a short and on a very long value, measured on a painted thread stack; '
  'distinct = distinct results observed by those cases', keys=['asan', 'ubsan', 'memcheck', 'sanitizer', 'crash', 'exit', 'hang', 'read-beyond-buffer', 'write-beyond-buffer', 'write-before-buffer', 'stack-growth'],
  assumptions=[DET, 'not watched: misaligned access (-fsanitize=alignment) and left shifts of signed values (shift-base), both defined by the compilers the project is built with, and null pointers handed to memcpy and the like with length 0; Memcheck sees a subset of the workload'])
P('C24', ['thread'],
  [R('thr.shared', 320, 12000, 'tsan', chunk=4), R('thr.independent', 320, 12000, 'tsan', chunk=4), R('thr.shared', 960, 40000, 'sched', align=24), R('thr.independent', 960, 40000, 'sched', align=24)],
  'one case = 2..6 threads with 3..12 random operations each on one shared keyed context, or on contexts of their own created, used and freed in the thread; results compared with the reference and with the same call alone; '
  'TSan watches every access; distinct = distinct (interleaving of operation starts/ends, results)', assumptions=[DET, REF, 'white-box table generation is outside the property'])
U5 = dict(groups=['udf5'])
P('C25', ['udf'], [R('udf.rows', 6000, 200000), R('udf.init', 1200, 20000), R('udf.rows', 480, 20000, 'asan'), R('udf.init', 60, 1000, 'asan'), R('udf.threads', 240, 10000, 'tsan', chunk=6), R('udf.threads', 720, 30000), R('udf.stack', 4, 80, chunk=1, stall=300),
  R('udf5.rows', 6000, 200000, **U5), R('udf5.init', 1200, 20000, **U5), R('udf5.rows', 480, 20000, 'asan', **U5), R('udf5.init', 60, 1000, 'asan', **U5), R('udf5.threads', 240, 10000, 'tsan', chunk=6, **U5), R('udf5.threads', 720, 30000, **U5), R('udf5.stack', 4, 80, chunk=1, stall=300, **U5)],
  'one case = one statement (fpe_init, 1..60 rows with good, bad and NULL values, fpe_deinit) driven as the server drives it, or several such statements in parallel threads; results compared with SM4-FF1 by reference and decrypted again; '
  'distinct = distinct rows', assumptions=[DET, REF, 'the server is simulated from the documented UDF calling convention', 'udf/mysql5.cpp is compiled with the installed MySQL 8 headers and my_bool = char'])
P('C26', ALL, surface('plain', 1, 20, leak=True),
  'one case = one case of a scenario of the other properties (success, refusal and fault paths), repeated in place: live heap blocks (malloc monitor) and open descriptors must not grow from one repetition to the next; distinct = distinct results',
  keys=['leak-memory', 'leak-fd', 'leak-file', 'udf-growth'], assumptions=[DET, 'harness/x_malloc.cpp counts every heap block of the process'])
P('C27', ALL, surface('plain', 3, 100) + [R('par.single', 240, 6000, align=24), R('par.many', 120, 3000, align=24), R('quiet.calls', 3600, 60000, align=24)],
  'one case = one case of a scenario of the other properties: inputs and key contexts are compared with snapshots after each call, outputs carry guard bytes before, canaries behind the declared part and an inaccessible page behind the buffer; quiet.calls = successful calls of every kind with stdout and stderr captured; distinct = distinct results',
  keys=['input-modified', 'write-before-buffer', 'write-beyond-declared', 'write-beyond-buffer', 'key-context-modified', 'refused-write', 'stray-output'], assumptions=[DET])
PLAN['C27']['groups'] = ALL + ['thread', 'oom']

P('C28', ['fault', 'file'], [R('cipher.fail', 32000, 600000), R('cipher.fail', 1600, 30000, 'asan')],
  'one case = one operation of one mode (GCM, parallel GCM, CBC, FF1, FF3, FF1-CMAC, FF3-GMAC, GCM file, both directions) with a block cipher that reports an error at its k-th call, every k; distinct = distinct (case, k)',
  level='fault_enumeration', assumptions=[DET, 'the block cipher is supplied through the public block128_f interface'])

P('C29', ['fresh'], [R('fresh.tables', 96, 2400, chunk=6, stall=400), R('fresh.process', 192, 12000, chunk=12)],
  'one case = 16 table sets of one kind generated under a controlled clock (fresh.tables) or one set in each of two forked processes at different times (fresh.process), every lookup table compared; distinct = distinct table contents',
  assumptions=[DET, 'the clock is the only difference between the processes; table sets generated within the same second are outside the property'])

P('C30', ['wipe'], [R('wipe.keys', 2800, 60000, align=14)],
  'one case = the life of one key context (aes, sm4, wbaes, wbsm4, se_wbsm4, WBGCM tables, application layer): one to three keys, blocks, GCM messages, files and format-preserving calls on top, then free; every heap block given back meanwhile and .data/.bss afterwards are searched for 8-byte pieces of key, round keys and hash key; distinct = distinct keys',
  assumptions=[DET, 'registers and dead stack frames are not searched; blocks given back by OpenSSL on behalf of the library are'])

P('C31', ['oom', 'udf'], [R('oom.calls', 2400, 60000, align=24), R('udf.oom', 1200, 30000), R('udf5.oom', 1200, 30000, **U5)],
  'one case = one call (context creation, key and table setup, application-layer initialisation, whole GCM, parallel GCM, WBGCM and CBC messages, FF1, FF3 and their MAC variants, application layer, files, key export and import, a UDF statement of two rows), repeated with each of its allocations refused in turn (a sample of them when there are more than 32); distinct = distinct (call, refused allocation)',
  level='fault_enumeration', assumptions=[DET, 'allocations made inside OpenSSL, OpenMP and the C and C++ libraries are not refused'])

MON = 'runtime monitoring: '
TECH = {
 'C01': MON + 'digest monitor against an independent SM3 over random chunkings, guard-page buffers',
 'C02': MON + 'block monitor against an independent SM4, guard-page buffers',
 'C03': MON + 'block monitor against an independent AES-128, guard-page buffers',
 'C04': MON + 'block monitor against AES-128 over many table randomness seeds, table snapshots',
 'C05': MON + 'block monitor against SM4 over many seeds and dummy-round counts, table snapshots',
 'C06': MON + 'block monitor against SM4 over many seeds, table snapshots',
 'C07': MON + 'CBC monitor against a reference, capacity enumeration on guard-page buffers',
 'C08': MON + 'GCM trace monitor (IV, AAD, data, tag sequence) against SP 800-38D',
 'C09': 'ThreadSanitizer and schedule perturbation (own OpenMP runtime), results checked against serial reference',
 'C10': MON + 'GCM trace monitor against AES-128-GCM over many table sets',
 'C11': MON + 'paired-context monitor that learns the mask and checks it is a bijection; forgery monitor',
 'C12': MON + 'file container monitor against the in-memory mode, directory snapshots',
 'C13': MON + 'tampering workload, monitor on the verdict',
 'C14': 'fault injection into every stdio call, monitor on verdict, outputs, descriptors and directory',
 'C15': MON + 'FF1 monitor against SP 800-38G, whole-domain bijection monitor',
 'C16': MON + 'FF3 monitor against SP 800-38G, whole-domain bijection monitor',
 'C17': MON + 'tag agreement and sensitivity monitor over contexts and histories',
 'C18': MON + 'format and inverse monitor against FF1/FF3 on the free digits, guard-page buffers',
 'C19': MON + 'UTF-8 format and inverse monitor against FF1/FF3, guard-page buffers',
 'C20': MON + 'equivalence monitor of exported and imported contexts, damaged key files',
 'C21': MON + 'round-trip monitor on exactly sized guard-page buffers',
 'C22': MON + 'matrix results checked bit by bit, all 4x4 matrices enumerated',
 'C23': 'AddressSanitizer, UndefinedBehaviorSanitizer and Memcheck over the whole API workload',
 'C24': 'ThreadSanitizer and schedule perturbation over shared and independent contexts, results checked against single-threaded runs',
 'C25': MON + 'UDF driven as the server drives it, against a reference; ASan/UBSan and TSan builds',
 'C26': MON + 'heap and descriptor conservation monitor over repeated API histories',
 'C27': MON + 'input/key snapshots, canaries and guard pages around every call',
 'C31': 'allocation failure injection at every malloc/calloc/realloc of the library, monitor on verdict, result, live memory and later calls',
 'C30': MON + 'free()/realloc() interposer and .data/.bss search for key, round-key and hash-key bytes over whole context lives',
 'C29': MON + 'table contents of many generations compared with each other under a controlled clock, search for key material',
 'C28': 'fault injection into the block cipher callback, monitor on verdict, later results, descriptors and directory',
}
