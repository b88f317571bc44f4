# Property -> how to build and run its monitors.
import glob
import os

CHECKS = {}


def P(id, src, repo=(), rule='', variant='asan', libs=(), flags=(), assumptions=(), need=(), shards=None, extra=(), qscale=5):
    parts = [dict(name=id, src=[src], repo=list(repo), variant=variant, libs=list(libs),
                  flags=list(flags), **({'shards': shards} if shards else {}))]
    parts += list(extra)
    CHECKS[id] = dict(parts=parts, rule=rule, assumptions=list(assumptions), need_events=list(need), qscale=qscale)


P('C01', 'c01_base128.cpp',
  rule='values at and around every power of two, a contiguous small range, edge-biased random 64-bit values, '
       'mixed sequences and arbitrary byte strings; a case is distinct by its encoded bytes',
  need=['boundary-powers', 'sequences', 'decoded-arbitrary', 'truncated'])
P('C02', 'c02_bincore.cpp',
  rule='random sequences of typed writes (scalars, enums, arrays, counted containers, lambdas, strings, classes with '
       'own serialisation or byte swapping) with the byte order toggled per item, in memory and in files; distinct by '
       'item kinds and bytes', need=['moved-settings', 'items-swapped', 'items-native', 'files', 'open-errors', 'moves', 'reopened', 'reopen-failed'])
P('C03', 'c03_navi.cpp',
  rule='random operation sequences on readers and writers over memory and files, compared after every operation with '
       'a byte-array-and-cursor model; distinct by operation log',
  need=['reader-ops', 'writer-ops', 'size-queries', 'writer-paddings', 'reader-files', 'writer-files'])
P('C04', 'c04_endian.cpp', repo=['datas/matrix44.cpp'],
  rule='random values of every supported scalar, enum, array, vector and class kind, all 65536 16-bit values; '
       'distinct by kind and bytes', need=['uint16-exhaustive', 'nested-classes', 'directional', 'arrayswapper', 'many-items'])
P('C05', 'c05_bitfield.cpp',
  rule='13 layouts over 8- to 64-bit words, random set sequences with in- and out-of-range values, byte order both '
       'ways, one layout over all 65536 words; distinct by layout and operation log',
  need=['sets', 'gets', 'swaps', 'words-exhaustive'])
P('C06', 'c06_flags.cpp',
  rule='random operation sequences on six enum/storage combinations compared with a set after each operation; '
       'distinct by operation log', need=['flag-ops', 'flag-queries'])
REFL = ['datas/reflector.cpp', 'datas/master_printer.cpp', 'datas/matrix44.cpp']
P('C07', 'c07_reflconfine.cpp', repo=REFL,
  rule='random reads and writes by id, name, alias, index and element with plausible and hostile text on a 74-member '
       'object with random gaps between members, every index of every member by every setter; distinct by operation '
       'text',
  need=['text-accepted', 'text-rejected', 'indexed-in', 'indexed-out', 'element-in', 'element-out', 'numeric-in',
        'numeric-out', 'nested-sets', 'bitmember-sets', 'gets', 'bit-sets', 'every-index-numbers', 'every-index-texts',
        'every-index-elements', 'every-index-classes'])
P('C08', 'c08_reflconvert.cpp', repo=REFL,
  rule='random and boundary number, word, flag and array texts per member kind, all integers -70000..70000 for 8- and '
       '16-bit members, each judged by an independent 128-bit parser or the C library; distinct by member and text',
  need=['quoted', 'exact', 'clamped', 'sign', 'rejected', 'bool-ok', 'bool-bad', 'flags', 'flag-bits', 'strings', 'too-many', 'short',
        'full', 'bitmembers', 'exhaustive-blocks'])
P('C09', 'c09_reflround.cpp', repo=REFL,
  rule='random objects printed whole, by item and by element and compared with a reference formatter, and set into a '
       'second object from that text; every enumerator including negative ones; distinct by member and text',
  need=['printed', 'items', 'elements', 'whole', 'by-item', 'by-element', 'bitfields', 'enumerators', 'wide-bits', 'long-arrays'])
P('C10', 'c10_refllookup.cpp', repo=REFL,
  rule='existing, near-miss and random names and indices looked up through four kinds of view, nested objects by '
       'index, classes with and without names, aliases and descriptions, members at the limits of descriptors; distinct by name or member and index',
  need=['found', 'unknown', 'nested-live', 'nested-deep', 'absent', 'unnamed', 'templates', 'aliases', 'large-right', 'many-members'])
REFLIO = REFL + ['datas/reflector_io.cpp']
P('C11', 'c11_reflbin.cpp', repo=REFLIO,
  rule='random objects of a 67-member class saved and loaded in both byte orders at random offsets, nested objects '
       'alone, streams with reordered, renamed and lengthened members from an independent encoder, refusals; distinct '
       'by stored bytes',
  need=['native', 'swapped', 'nested-alone', 'long', 'evolved', 'other-class', 'other-count', 'no-form'])
P('C12', 'c12_reflbinhostile.cpp', repo=REFLIO,
  rule='stored random objects cut at every kind of place, damaged inside one member or anywhere, loaded into another '
       'random object; distinct by damaged bytes', need=['cuts', 'member-damage', 'refused', 'taken'])
P('C13', 'c13_reflectordb.cpp', repo=REFLIO,
  rule='databases of random compiled and made-up classes and enums saved at random offsets and loaded, saved again, '
       'used on live objects, loaded into used databases and copied, other ids and newer versions; distinct by stored '
       'bytes', need=['cut-small', 'classes', 'enums', 'offset', 'live', 'newer-version', 'other-id', 'used-database', 'copies', 'cut'])
REFLXML = REFL + ['datas/reflector_xml.cpp']
P('C14', 'c14_reflxml.cpp', repo=REFLXML, libs=['-lpugixml'],
  rule='random objects of a 67-member class and a class without names saved in four layouts, to a class node among '
       'others or a given node, loaded from the DOM or from serialised text; distinct by document',
  need=['layout-v1', 'layout-v2', 'layout-v2a', 'layout-v2a+strings', 'through-text', 'through-dom', 'unnamed', 'picked',
        'none', 'partial', 'templates', 'long-arrays'])
P('C15', 'c15_reflxmlhostile.cpp', repo=REFLXML, libs=['-lpugixml'],
  rule='random documents from member names, hashes, aliases, hostile indices and values, and mutated saved documents, '
       'loaded in both layouts into an object with random gaps; distinct by document',
  need=['v1', 'v2', 'changed', 'bad-index', 'mutated', 'live-parts', 'missing-items', 'missing-axes'])
PRN = ['datas/master_printer.cpp']
P('C16', 'c16_printer.cpp', repo=PRN, qscale=3,
  extra=[dict(name='C16T', src=['c16_printer.cpp'], repo=PRN, variant='tsan')],
  rule='random messages of mixed pieces and kinds from one thread and from 2-8 threads at once into three unlocked '
       'sinks with injected delays, under ASan and under TSan; distinct by text or by order of arrival',
  need=['large-messages', 'messages', 'flushed', 'null-text', 'locale', 'threaded-messages', 'thread-switches', 'sink-failures'])
P('C17', 'c17_queue.cpp', qscale=1.5,
  extra=[dict(name='C17T', src=['c17_queue.cpp'], variant='tsan')],
  rule='random task counts, reported hardware threads 0-12, delays, throwing and waiting tasks, nested and concurrent '
       'queues, under ASan and under TSan; distinct by counts and observed concurrency',
  need=['tasks', 'throwing-queues', 'empty-queues', 'concurrent-queues', 'unknown-hardware', 'slow-tasks', 'nested'])
P('C19', 'c19_stringview.cpp',
  rule='random haystacks and needles over small alphabets and four character types at all kinds of positions and '
       'counts, compared with std::basic_string including refusals; distinct by texts and position',
  need=['find', 'find-of', 'find-not-of', 'parts', 'out-of-range', 'streamed'])
P('C18', 'c18_fileinfo.cpp',
  rule='random paths of dotted, empty, absolute and relative parts with both separators in narrow and wide characters, '
       'constructed, loaded, reloaded, copied and moved; distinct by path',
  need=['many-parts', 'branch-long', 'branch-twice', 'own-parts', 'char', 'wchar_t', 'dots-in-folders', 'extensions', 'no-parts', 'reload', 'copies', 'moves', 'branch-found', 'branch-new', 'long-paths'])
P('C20', 'c20_hash.cpp',
  rule='random texts of all lengths to 300 and longer with all byte values and seeds, compiled literals, hashes as map '
       'keys; distinct by text',
  need=['texts', 'whole-blocks', 'empty', 'high-bytes', 'long-texts', 'literals', 'keys'])
P('C21', 'c21_float.cpp',
  rule='all codes of ten small float layouts decoded and encoded alone and in vectors, random and boundary floats '
       'encoded, packed vectors; distinct by layout and code',
  need=['normal-codes', 'denormal-codes', 'nan-codes', 'nan', 'overflow', 'exact', 'inexact', 'packed'])
P('C22', 'c22_vectors.cpp',
  rule='random components of all 24 scalar and SIMD vector classes through every operator form, metric, conversion and '
       'text; distinct by components',
  need=['floatx2', 'floatx3', 'floatx4', 'int8x4', 'uint16x3', 'int32x2', 'simd float', 'simd int', 'simd uint', 'shifts',
        'symmetry', 'metric', 'cross', 'texts', 'ordered', 'quaternions', 'tolerance'])
P('C23', 'c23_matrix.cpp', repo=['datas/matrix44.cpp'],
  rule='random, axis, quarter turn and nearly degenerate quaternions with positions, scales and mirrored scales, random '
       'whole and real matrices; distinct by input',
  need=['mostly-x', 'mostly-y', 'mostly-z', 'mostly-w', 'mirrored', 'not-mirrored', 'exact-products', 'products'])
P('C24', 'c24_format.cpp', repo=['uni/uni_format.cpp'],
  rule='every offered codec on random and boundary blocks of exactly its size, arrays with strides, every code of each '
       'channel up to 16 bits, misuse and unknown combinations; distinct by codec and content',
  need=['values', 'packed-arrays', 'strided-arrays', 'long-arrays', 'refusals', 'most-negative-codes', 'codes', 'known-combinations',
        'unknown-combinations'])
P('C25', 'c25_uni.cpp', repo=['uni/uni_format.cpp', 'datas/matrix44.cpp'],
  rule='random histories of list contents in four storages walked in four ways, ownership tracked per object, random '
       'operation sequences on three containers linked to exactly sized memory, pointers that own or refer with each object looked up in '
       'the allocator, all track and transform kinds; distinct by history',
  need=['walks', 'refused-positions', 'elements', 'value-walks', 'links', 'empty-links', 'growth-off-linked', 'edits-in-place',
        'copies', 'moves', 'disposals', 'pointers', 'refused-calls', 'descriptors'])
P('C26', 'c26_pointer.cpp', libs=['-lpthread'],
  rule='random images of up to 30 stored pointers to words, slots, the last word and null, with random histories of '
       'fixing, fixing again, assigning and clearing, moved images and concurrent threads; distinct by history',
  need=['many', 'backwards', 'followed', 'nulls', 'fixups', 'repeated-fixups', 'assignments', 'null-assignments', 'moved-pointers', 'threads'])
P('C27', 'c27_encrypt.cpp', repo=['datas/encrypt/blowfish.cpp'],
  rule='random keys of 1 to 116 bytes, messages of 0 to 200 bytes at any alignment in exactly sized memory, both flavours of the cipher, five modes, '
       'one or two encoders, changes of key, mode and vector; distinct by key, mode and message',
  need=['standard', 'reversed', 'ECB', 'CBC', 'PCBC', 'CFB', 'OFB', 'messages-with-rest', 'messages-of-blocks', 'other-decoder', 'high-key-bytes',
        'second-keys', 'empty-keys', 'own-vectors', 'xor-messages', 'xor-keys', 'xor-empty-keys'])
P('C28', 'c28_zip.cpp', qscale=3,
  extra=[dict(name='C28T', src=['c28_zip.cpp'], variant='tsan')],
  rule='random archives of 0-12 stored files with extra fields, comments, directories, ZIP64 records and block-like '
       'content, cut at and around all block ends, damaged headers, 2-6 threads, under ASan and under TSan; distinct by archive',
  need=['replaced-files', 'files', 'kept-files', 'in-files', 'in-memory', 'extra-data', 'signatures', 'zip64-records', 'whole-cuts', 'refused-cuts',
        'damage-accepted', 'damage-refused', 'encrypted', 'compressed', 'nameless', 'threaded-files', 'thread-switches', 'ZIPFile', 'methods'])
P('C29', 'c29_dds.cpp',
  rule='every documented DXGI format, every legacy pixel format and unknown ones with random and extreme dimensions and mip '
       'counts, conversions in both directions; distinct by dimensions and format',
  need=['block-textures', 'plain-textures', 'too-many-mips', 'too-large', 'sizes', 'unknown-formats', 'computed-bpp', 'round-trips',
        'refused-formats', 'converted-formats', 'unknown-pixel-formats', 'mips-set', 'mips-cleared'])
P('C30', 'c30_blocks.cpp',
  rule='random and boundary blocks of each kind decoded into random places of images of exactly their size, all 65536 '
       'colors, all pairs of normal components; distinct by block',
  need=['BC1', 'BC1A', 'BC2', 'BC3', 'BC4', 'BC5', 'BC5GA', 'BC1 SIMD', 'first-color-higher', 'second-color-higher', 'pixels',
        'colors', 'normals', 'large-images', 'beyond-2gb'])
P('C31', 'c31_morton.cpp',
  rule='all power of two dimensions up to 8192 in both directions; every pixel of textures up to 65536 pixels, each bit, the '
       'last and random pixels of larger ones; distinct by dimensions and address',
  need=['addresses', 'whole-textures', 'sampled-textures', 'square', 'wide', 'tall'])
P('C32', 'c32_scan.cpp', repo=['datas/directory_scanner.cpp'], libs=['-ldl'], qscale=2,
  rule='random hierarchies of up to 40 folders, files and links with odd names in a scratch folder, scanned in random '
       'order with random filters, in four spellings, from the root, from inside and with a file system that tells no '
       'kinds; distinct by hierarchy',
  need=['crowded-folders', 'long-paths', 'folders', 'files', 'links', 'filters', 'clears', 'scans', 'blind-scans', 'scans-of-subfolders', 'filtered-out', 'listed',
        'missing-folders', 'current-folders', 'deep-levels'])
P('C33', 'c33_folders.cpp', repo=['datas/stat.cpp'], qscale=2,
  rule='random paths and lists of paths of 1 to 6 parts with both separators made in a scratch folder, again and again '
       'with files in them, all kinds of files with all modes; distinct by hierarchy',
  need=['folder-paths', 'file-paths', 'lists', 'folders', 'kept-files', 'kinds', 'modes', 'links', 'single-folders'])
P('C34', 'c34_unicode.cpp', libs=['-lpthread'],
  rule='random and boundary texts in exactly sized memory, every character of Unicode, texts with zeros and malformed ones, '
       'in all three encodings; distinct by text',
  need=['thread-texts', 'wchar_t', 'char16_t', 'char32_t', 'texts', 'empty', 'one-byte', 'two-byte', 'three-byte', 'four-byte', 'blocks', 'zeros',
        'malformed', 'any-accepted', 'any-refused', 'help-words'])
P('C35', 'c35_settings.cpp', repo=REFL, libs=['-lpthread'], qscale=2,
  rule='two settings classes with and without names, descriptions and nested classes, random values, logs made again and '
       'again in a scratch folder, random printed lines also from threads; distinct by log text',
  need=['impossible-logs', 'next-logs', 'settings', 'printed-lines', 'threaded-logs', 'logs', 'help-lines'])
P('C36', 'c36_failing.cpp', qscale=2,
  rule='random sequences of items in both byte orders read from a device that ends or reports an error at every byte, or '
       'after the stream failed already, twice with different stack contents; written to devices of any room; distinct by bytes',
  need=['device-failures', 'failed-before', 'whole-items', 'empty-items', 'cut-strings', 'errors', 'ends', 'full', 'fitting'])
P('C37', 'c37_helpers.cpp', repo=REFL,
  rule='random and boundary codes, alignments, texts and wave files; every length of member loops, enumerations and classes '
       'of up to 89 members; distinct by input',
  need=['codes', 'high-codes', 'paddings', 'powers', 'not-powers', 'fractions', 'trimmed', 'untrimmed', 'blank', 'containers', 'loops',
        'enums', 'classes', 'calculated', 'odd-chunks', 'even-chunks', 'data-chunks', 'known-ids', 'unknown-ids'])
P('C38', 'c38_errors.cpp', repo=PRN, qscale=2,
  rule='random magics of all sizes, names and versions; every test check in simple and compound forms on small and extreme '
       'values, and runs of cases; distinct by input',
  need=['readable-magics', 'hex-magics', 'full-magics', 'names', 'passing', 'failing', 'failed-runs', 'passed-runs'])
P('C39', 'c39_xmlfile.cpp', repo=REFL, libs=['-lpugixml'], qscale=2,
  rule='random documents written with random format flags, encodings and indentation and read with random flags; cut, '
       'damaged, empty, missing and unwritable files; distinct by document',
  need=['round-trips', 'boms', 'formats', 'reads', 'encodings', 'children', 'still-fine', 'no-document', 'broken', 'missing',
        'unwritable', 'folders', 'status_bad_start_element', 'status_bad_attribute', 'status_end_element_mismatch',
        'status_unrecognized_tag', 'status_bad_comment', 'status_bad_cdata', 'status_bad_pi'])
P('C40', 'c40_givenback.cpp', repo=REFLXML + ['datas/reflector_io.cpp', 'datas/directory_scanner.cpp'], libs=['-lpugixml', '-lpthread'],
  rule='fourteen kinds of work (files, scans, printing, queues, members as text, binary, XML, databases, settings, archives, '
       'documents, paths, lists, errors) with memory, open files and threads counted before and after, then again with a '
       'random allocation failing; distinct by what the work has seen',
  need=['files', 'scans', 'printer', 'queues', 'text-members', 'binary', 'xml', 'databases', 'settings', 'archives', 'documents',
        'paths', 'lists', 'errors', 'allocations', 'failed-work', 'survived-failures'])
P('C43', 'c43_threads.cpp', variant='tsan', libs=['-lpugixml', '-lpthread'],
  repo=REFLXML + ['datas/reflector_io.cpp', 'datas/directory_scanner.cpp', 'uni/uni_format.cpp', 'datas/encrypt/blowfish.cpp'],
  rule='two to six threads at once, each with work of one of eighteen kinds on objects and files of its own, under TSan: the '
       'first use in fresh processes, then mixtures; results compared with the same work alone; distinct by what work has seen',
  need=['first-uses', 'files', 'scans', 'queues', 'text-members', 'binary', 'xml', 'databases', 'settings', 'archives', 'documents',
        'paths', 'lists', 'errors', 'codecs', 'mathematics', 'ciphers', 'textures', 'hashes'])
_HERE = os.path.dirname(os.path.abspath(__file__))
_PY = (sorted(glob.glob('/usr/include/python3.*/Python.h')) or ['/usr/include/python3.12/Python.h'])[-1].split('/')[3]
P('C41', 'c41_python.cpp', repo=REFL, libs=['-l' + _PY, '-lpthread'],
  flags=['-I' + os.path.join(_HERE, 'harness', 'py2'), '-I/usr/include/' + _PY],
  rule='random skeletons, bones, motions and tracks with lent and given lists, seen through the bindings of an embedded '
       'interpreter: attributes, items, walks, samples, named values, and every kind of wrong request; distinct by object',
  need=['skeletons', 'bones', 'roots', 'parents', 'rts', 'matrices', 'unknown-kinds', 'motions', 'tracks', 'values', 'rates',
        'fixed-rates', 'items', 'outside', 'not-indices', 'walks', 'stopped-walks', 'as-lists', 'unknown', 'refused', 'bad-times',
        'changing-times', 'bad-arguments', 'not-offered', 'enum-items', 'enum-unknown', 'same', 'different', 'tuples', 'conserved', 'no-values',
        'repeated', 'wrong-rates'])
P('C42', 'c42_max.cpp', libs=['-lpugixml', '-lpthread'],
  flags=['-DNDEBUG', '-I' + os.path.join(_HERE, 'harness', 'max')],
  rule='random sets and gets of every parameter of the wrappers, layer operations, node suffixes and presets, over a recording '
       'stand-in for the SDK; distinct by operations and values',
  need=['set', 'got', 'added', 'deleted', 'copied', 'moved', 'shrunk', 'grown', 'refused', 'last-kept', 'layer-set', 'no-channels',
        'channels', 'colour', 'full-colour', 'presets', 'extensions', 'no-extensions'])

# repetitions of the random sections in the quick tier, for some ten seconds each
for _id, _scale in {
    'C01': 60, 'C02': 60, 'C03': 60, 'C04': 60, 'C05': 60, 'C06': 60, 'C07': 10, 'C08': 8.5, 'C09': 4, 'C10': 16, 'C11': 6.7, 'C12': 8.6, 'C13': 8.7, 'C14': 12.5, 'C15': 17.1, 'C16': 3, 'C17': 2, 'C18': 54.5, 'C19': 54.5, 'C20': 28.6, 'C21': 10.9, 'C22': 31.6, 'C23': 60, 'C24': 7.6, 'C25': 60, 'C26': 60, 'C27': 60, 'C28': 6, 'C29': 60, 'C30': 50.0, 'C31': 35.3, 'C32': 10, 'C33': 18.5, 'C34': 60, 'C35': 24, 'C36': 2.9, 'C37': 16.2, 'C38': 2.1, 'C39': 24, 'C41': 8, 'C42': 60}.items():
    CHECKS[_id]['qscale'] = _scale

# how much longer the thorough tier runs than the counts in the sources say
for id, k in {
    'C01': 40, 'C02': 20, 'C03': 50, 'C04': 30, 'C05': 60, 'C06': 60, 'C07': 4, 'C08': 2.5, 'C09': 2.5, 'C10': 6,
    'C11': 5, 'C12': 5, 'C13': 5, 'C14': 6, 'C15': 2.5, 'C16': 2, 'C18': 15, 'C19': 20, 'C20': 15, 'C21': 8,
    'C22': 15, 'C23': 20, 'C24': 2.5, 'C25': 8, 'C26': 20, 'C27': 15, 'C32': 1.5}.items():
    CHECKS[id]['tscale'] = k
