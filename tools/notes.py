# Per property: (oracle, bounds and what is not claimed).  Used for DESIGN.md only.
NOTES = {
 'C01': ('A reference encoder written from the format (length in leading bits) gives the expected bytes; the value read, the '
         'cursor after it and the next item in mixed streams are compared. Arbitrary bytes are decoded from exactly sized '
         'memory; truncated ones must not read outside.',
         'All powers of two and neighbours, 0..70000 contiguous, random 64-bit; which of several encodings of a value a decoder '
         'may accept is not judged.'),
 'C02': ('Each item is also serialised by a reference into a byte image; the stream must equal the image and reading must give '
         'the values and cursor back. Files are compared with memory streams.',
         'Sequences of up to 40 items; swapped one-byte types throw by design and are left out.'),
 'C03': ('A std::vector<char> with a cursor, an origin and a stack models the stream; after every operation position, size, '
         'state and content are compared.', 'Streams up to a few KiB, up to 80 operations, no failing operations (see C36).'),
 'C04': ('Byte-by-byte reversal at the offsets of each scalar, computed from a hand-written layout of each type; canaries '
         'around the value.', 'Types listed in the harness; floats compared as bytes, so NaN included.'),
 'C05': ('The word is modelled as an integer with masks and shifts computed by the harness.', '13 layouts; 16-bit layout exhaustively.'),
 'C06': ('A std::set of enumerators.', 'Six enum/storage pairs, all storage widths, enumerators below the width of the storage.'),
 'C07': ('The object lies in a heap block of exactly its size with random gaps; the whole image before and after is compared, '
         'and only bytes (bits) of the addressed part may differ; refusals may change nothing.',
         '66 members covering every kind of reflected type; text of up to 70000 characters.'),
 'C08': ('Integers are parsed by an independent 128-bit parser, floats by strtod, words by tables; value, result flags and '
         'kept values are compared.', 'All integers -70000..70000 for small members; text for flags, vectors and arrays generated '
         'from a grammar with errors injected.'),
 'C09': ('A reference formatter prints the members; setting another object from that text must give equal members.',
         'NaN, subnormals and strings with separators inside arrays excluded, as stated.'),
 'C10': ('A hand-written table of the members (names, aliases, offsets, classes) answers each lookup.',
         'Nested levels up to 3; five fixture classes with and without names.'),
 'C11': ('Member-wise equality after the round trip; an independent encoder makes streams of other versions (reordered, '
         'unknown, longer members) and says what must be loaded.', 'Fixture of 51 members, offsets up to 64 KiB.'),
 'C12': ('An independent parser of the stored form maps each byte to its member; cuts and damage inside one member may change '
         'that member only; object in exactly sized memory.', 'Damage of lengths may end the load early; then later members must keep or take their value.'),
 'C13': ('Loaded classes and enums are compared field by field with the compiled or made-up originals and used on live '
         'objects; the second save must be byte-identical.', 'Up to 12 classes and enums per database; corrupt databases not claimed.'),
 'C14': ('Member-wise equality after saving and loading in four layouts; the text of each node is compared with the reference '
         'formatter.', 'Members of the 67-member fixture; documents through the DOM or text.'),
 'C15': ('A resolver written separately from the loader computes the set of members a document addresses; only these may '
         'differ, object in guarded memory.', 'Documents of up to some 60 nodes, mutated saved documents.'),
 'C16': ('Sinks record calls without locks of their own; their logs must be a permutation of whole messages with per-thread order, '
         'equal at all sinks, formatted as a reference stream does. TSan watches the sinks.',
         '1-8 threads, 3 sinks, text up to a few KiB.'),
 'C17': ('Counters per index, high-water mark of running tasks, completion flags; the number of hardware threads is faked by '
         'interposition. TSan watches unsynchronised writes of tasks that are read after the return.',
         '0-300 tasks, 0-12 reported threads.'),
 'C18': ('An independent splitter of the normalised path.', 'Paths of up to 12 parts; branches containing one another and double '
         'slashes in branches not claimed.'),
 'C19': ('std::basic_string with the same contents, including thrown out_of_range.', 'Texts up to 40 characters, four character types, exactly sized memory.'),
 'C20': ('Re-implementations of one-at-a-time and lookup3 (hashlittle) from the published text.', 'Lengths 0-300 and up to 4 KiB; '
         'the reversed operator< only has to be a consistent order.'),
 'C21': ('The value of a code is computed as a dyadic rational in double; the two neighbouring codes bound every encoding.',
         'Ten layouts exhaustively by code; negative numbers into unsigned layouts not claimed.'),
 'C22': ('Each operator applied to plain numbers of the component type.', '24 classes; estimates of SIMD square roots within the documented '
         'precision.'),
 'C23': ('Double precision quaternion and matrix algebra.', 'Tolerance relative to the entries; see conventions under false alarms. '
         '3x3 transposition claimed for rows without a fourth component.'),
 'C24': ('Bit extraction from the exactly sized block, then the quotient or float each channel stands for.',
         'Integers exactly, normalised within 1e-6 (R5G6B5 and R11G11B10 within half a step, one step when signed); the most '
         'negative signed code may be its quotient or -1.'),
 'C25': ('A ledger of live elements (constructed, owned, disposed) and model containers.', 'Histories of up to 60 operations.'),
 'C26': ('A table of slots and their targets, compared after each fixing pass.', 'Images up to 30 pointers; each thread has its own image.'),
 'C27': ('A Blowfish written in the harness from the digits of pi, with ECB, CBC, PCBC, CFB and OFB by their definitions, and '
         'published vectors.', 'Keys up to 116 bytes, messages up to 200 bytes; partial last blocks are kept as the interface says.'),
 'C28': ('Archives are written by the harness; names and bytes are known. Cuts and damage are placed by its map of the archive.',
         'Up to 12 files, 2-6 threads; checksums are not verified by the library.'),
 'C29': ('Tables of bits per pixel, blocks, masks and FourCC typed from the Microsoft documentation.',
         'Totals below 2^32; no depth, arrays, cubes; not bits per pixel of video formats.'),
 'C30': ('Exact rational interpolation of the published reference decoder.', 'BC1-BC5 forms offered; one level tolerance, nine for '
         'the vector version.'),
 'C31': ('Bit interleaving one bit at a time; a bitmap of used addresses.', 'All pairs of powers of two up to 2^17, every pixel up to 65536 of them, and random pairs up to 2^31 each.'),
 'C32': ('The tree the harness made, as a map of paths; readdir is interposed to shuffle entries and hide their kinds.',
         'Up to 40 entries, depth up to 60.'),
 'C33': ('The tree that should exist, compared with a walk of the scratch folder; contents of files compared.',
         'Paths up to 6 parts; errors such as missing permissions not claimed.'),
 'C34': ('A UTF encoder and decoder written bit by bit.', 'Every Unicode character alone and in texts of up to 80 characters.'),
 'C35': ('The log and help files are parsed and compared with the values set, printed by the reference formatter, and the lines printed.',
         'Two settings classes; up to 6 threads.'),
 'C36': ('A stream buffer fails after every possible byte in one of three ways; each read is done twice with different stack '
         'contents; a guard ends endless filling. Written bytes are compared with the prefix of the image.',
         'Sequences of up to 12 items.'),
 'C37': ('Small reference computations.', 'Member loops of 1-89 members generated; ADPCM rates not claimed.'),
 'C38': ('Each check is expanded on values and compared with the expression evaluated by the harness; printed reports are parsed.',
         'NaN comparisons not claimed.'),
 'C39': ('Document model compared after writing and reading; the XML library called directly with its own constants is the reference '
         'for flags.', 'Offsets of errors as the XML library gives them.'),
 'C40': ('The allocator of ASan, /proc/self/fd and /proc/self/task are counted before and after; a replaced operator new lets the '
         'chosen allocation fail, then the same work must give the same as before the failure and leave nothing.',
         'One failing allocation at a time, on the thread that does the work; memory of the XML library itself (malloc) does not fail.'),
 'C41': ('An interpreter is embedded whose allocator is watched: every live object of the bindings is found before and after, and '
         'a stand-in for None has a count of its own. Each result must be a value or an error, never both or neither, and is compared '
         'with the object behind it, which may lend or give away its lists and elements.',
         'The bindings are for Python 2, which is not installed: harness/py2/Python.h maps the names that Python 3 dropped (text is '
         'bytes), so the comparison slot is called directly and Python 2 itself is not decided. Two walks of one list object at once '
         'share a position and are not claimed.'),
 'C42': ('harness/max stands in for the SDK: parameter blocks record each set and get by number, row and type, the composite map carries '
         'out layer operations on those rows, and the core keeps what it was asked to make. The helpers run unchanged over it.',
         'The SDK itself, which cannot be had here, is not decided: numbers of parameters are taken from the code. Release builds '
         '(asserts off), narrow text.'),
 'C43': ('Each job has a folder, archive and random stream of its own; what it has seen is one text, made again alone after the threads '
         'ended. Each first use happens in a forked process of its own, so lazily made state is made by several threads at once there.',
         'Objects shared between threads are not claimed, apart from the printer (C16), archives (C28) and queues (C17). Races inside '
         'the XML library, which is not instrumented, are not seen.'),
}
