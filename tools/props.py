# The properties, in one place; tools/mkmeta.py turns them into properties.jsonl and MANIFEST.json.
PROPS = []
NA = {}
ASAN = 'runtime monitoring under ASan+UBSan: '
MODEL = ('Seeded exploration of the real code under AddressSanitizer and UndefinedBehaviorSanitizer; every execution is '
         'judged by an independent reference written in the harness. ')


def prop(id, title, statement, over, qtext, why, files, mech, technique, note='', observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                      files=files.split(), mech=mech, technique=ASAN + technique if not technique.startswith('!') else technique[1:],
                      note=MODEL + note, observe=list(observe)))


prop('C01', 'Variable-length integers decode to what was encoded',
     'Every value a variable-length integer type can represent (63/64-bit magnitudes, signed and unsigned) '
     'is decoded to exactly the value that was encoded, consuming exactly the bytes that encoding '
     'produced, so mixed sequences stay in step. Small values use the short encodings and never more than nine bytes are '
     'used. Decoding arbitrary or truncated bytes never reads outside the input.',
     'inputs histories', 'all 64-bit values, all mixed sequences of encoded values, all byte strings given to the decoder',
     'the unit test writes eight fixed values; boundary lengths, negative magnitudes and mixed streams are unbounded',
     'datas/base_128.hpp', [('uintvar / bint128 / buint128 / buint128_2 Read and Write', 'datas/base_128.hpp')],
     'reference encoder/decoder compared per value and per stream position')
prop('C02', 'Typed binary writes read back as the same values in either byte order',
     'Any sequence of typed items (scalars, enums, fixed arrays, counted containers with any counter type, lambdas, '
     'strings, classes with own serialisation or byte swapping) written to a file or memory stream reads back equal item '
     'by item with the same byte order setting, and the bytes are exactly the native or byte-reversed image of each '
     'scalar in order. Switching byte order between items affects only later items. Reading back leaves the cursor just '
     'after each item, failures to open raise an error naming the file, moved streams keep working, and one '
     'reader or writer can be opened on one file after another.',
     'inputs histories configurations', 'all sequences of item kinds, values and byte order switches, in memory and in files',
     'tests cover one fixed sequence per kind; the product of kinds, byte orders and stream forms is unbounded',
     'datas/binreader_ref.hpp datas/binwritter_ref.hpp datas/binreader.hpp datas/binwritter.hpp datas/bincore_fwd.hpp',
     [('Read/Write overload selection', 'datas/binreader_ref.hpp, datas/binwritter_ref.hpp'),
      ('byte order switch', 'datas/bincore_fwd.hpp'), ('file streams', 'datas/binreader.hpp, datas/binwritter.hpp')],
     'byte-exact reference image and read-back comparison of random item sequences')
prop('C03', 'Stream navigation behaves like a cursor over a byte array',
     'Any sequence of seeks, skips, relative origins, alignment paddings, size queries, pushes and pops, reads and writes '
     'behaves exactly like a cursor over a growable byte array: positions, sizes and data agree after every operation. '
     'Alignment padding moves to the next multiple relative to the origin and writes zeros only. Size '
     'queries do not move the cursor.',
     'histories inputs', 'all operation sequences on readers and writers over memory and file streams',
     'tests call each operation once in a fixed order',
     'datas/binreader_stream.hpp datas/binwritter_stream.hpp datas/binreader_ref.hpp datas/binwritter_ref.hpp datas/bincore_fwd.hpp',
     [('Seek/Tell/Skip/ApplyPadding/GetSize/Push/Pop/SetRelativeOrigin', 'datas/binreader_stream.hpp, datas/binwritter_stream.hpp')],
     'byte-array-and-cursor model compared after each operation')
prop('C04', 'Byte swapping reverses each scalar, recursively, and is its own inverse',
     'Swapping the byte order of any supported value (scalar, enum, array, vector, matrix, class with its own swapping) '
     'reverses the bytes of every scalar inside it in place and nothing else. Applying it twice restores the value. The '
     'direction flag reaches every nested class exactly once.',
     'inputs', 'all values of all supported types',
     'tests check one value per type', 'datas/endian.hpp datas/endian_fwd.hpp datas/vectors.hpp datas/vectors_simd.hpp datas/matrix44.cpp',
     [('FByteswapper overloads', 'datas/endian.hpp'), ('fbswap_class, SwapEndian members', 'datas/endian_fwd.hpp')],
     'byte-reversal reference on canary-surrounded objects')
prop('C05', 'Bit-field members are independent and keep fixed positions',
     'Setting one member of a bit field changes exactly its own bits, taking the value modulo the member width, and every '
     'other member and the padding bits keep their value; getting a member returns what was last set. Members are laid '
     'out from the least significant bit in declaration order. Reversing the byte order of the whole field maps to the '
     'mirrored layout consistently and reversing it twice restores it.',
     'inputs histories', 'all layouts of the generated family, all set sequences and word values',
     'tests exercise one layout with a few values', 'datas/bitfield.hpp',
     [('BitFieldType Get/Set, BitMember positions', 'datas/bitfield.hpp')],
     'arithmetic model of the word compared after each set; one layout over all 65536 words')
prop('C06', 'Flag sets behave as sets of enumerators',
     'A flag set built from enumerators contains exactly the enumerators that were added or assigned and not '
     'removed; membership queries, copies and comparisons agree with set semantics. Bits of other enumerators and '
     'neighbouring memory are never disturbed, for every storage width.',
     'inputs histories', 'all operation sequences for six enum and storage combinations',
     'tests check a handful of fixed expressions', 'datas/flags.hpp',
     [('es::Flags operators', 'datas/flags.hpp')], 'set model compared after each operation')
prop('C07', 'Reflected writes stay inside the addressed member',
     'Setting a reflected member by position, name, alias, item or element, with any text or number, changes only the '
     'bytes (for flags and bit-field members only the bits) of what was addressed, and never reads outside the text or '
     'the object. A position, item or element that does not exist is refused with an error and changes nothing. '
     'Accepted numbers are stored in the addressed member.',
     'inputs', 'all members, indices and byte strings on a 50-member class of every member kind, its nested classes and bit fields',
     'tests set members with well formed text; out of range indices and malformed text are unbounded',
     'datas/reflector.cpp datas/internal/reflector.inl datas/internal/reflector_type.hpp datas/supercore.hpp',
     [('SetReflectedValue and SetReflectedMember', 'datas/reflector.cpp')],
     'whole-object image diff against the permitted region, on exactly sized heap blocks')
prop('C08', 'Reflected text conversion stores the exact value or reports why it did not',
     'Number, boolean, enumerator, flag, string, vector and array text set on a reflected member is converted exactly. A '
     'number outside the member range is clamped and reported as out of range, a negative number for an unsigned member '
     'as a sign mismatch, and malformed text is an error that keeps the value, for numbers and enumerators. In an '
     'array every given element is converted, elements not given keep their value, and any bad element is reported; commas within '
     'brackets and quotes belong to the element.',
     'inputs', 'all texts for all scalar widths and kinds, arrays and vectors of them and bit-field members',
     'tests convert a few dozen literals', 'datas/reflector.cpp',
     [('SetNumber, SetBoolean, SetEnum, SetEnumFlags, SetReflectedArray', 'datas/reflector.cpp')],
     'independent 128-bit integer parser, the C library float parser and enumerator tables compared per element')
prop('C09', 'Reflected values print in documented form and read back equal',
     'The text of a reflected member, whole or by item or element, is exactly its value: decimal integers, true/false, '
     'enumerator names, flag names joined with a bar, vectors in brackets and arrays in braces; floats to 6 and doubles '
     'to 13 significant digits. Setting a member of another object from this text gives an equal value (floats equal to '
     'the printed precision; strings inside arrays must not contain separators or quotes; NaN and subnormals excluded).',
     'inputs', 'all values of every member kind, enumerators including negative ones, bit-field members',
     'tests print one object', 'datas/reflector.cpp datas/internal/reflector_enum_reg.hpp',
     [('GetReflectedPrimitive, GetReflectedValue', 'datas/reflector.cpp')],
     'reference formatter and set-from-text comparison of random objects')
prop('C10', 'Reflected members are found consistently by position, name and alias',
     'A name, alias or position selects the same member through every kind of view, names taking precedence over '
     'aliases, and an unknown name or position selects nothing: empty text, no nested object, an error on writes. Pairs '
     'carry the name or alias and the value inside its description. A nested view addresses exactly the memory of that '
     'nested object and exists only for valid items of registered classes. A class whose members are too big, too many or '
     'too far to be described is refused.',
     'inputs', 'all names and positions on classes with and without names, aliases and descriptions',
     'tests look up a few existing names',
     'datas/reflector.cpp datas/internal/reflector.inl datas/internal/reflector_class.hpp datas/internal/reflector_class_reg.hpp datas/jenkinshash.hpp',
     [('GetReflectedType, GetReflectedPair, GetReflectedSubClass', 'datas/reflector.cpp, datas/internal/reflector.inl')],
     'hand written member table compared with every lookup')
prop('C11', 'Reflected objects survive binary save and load in either byte order',
     'An object saved to a binary stream, at any offset and in either byte order, loads into another object of its class '
     'with every member equal, and the stream continues just after it. Members are matched by name hash, so streams with '
     'reordered, unknown or longer stored members load the known ones and keep the values of the rest. A stream of '
     'another class is refused with the cursor and object unchanged, a different member count is refused with the object '
     'unchanged, and members with no stored form or of unregistered classes are errors, not crashes.',
     'inputs histories', 'all objects of a class with every storable member kind, all offsets, both byte orders, evolved streams',
     'tests save one object and load it', 'datas/reflector_io.cpp datas/reflector_io.hpp',
     [('SaveClass, LoadClass, WriteDataItem, LoadDataItem', 'datas/reflector_io.cpp')],
     'save/load comparison of random objects and an independent encoder of the stored form')
prop('C12', 'Damaged stored objects load safely and damage stays in its member',
     'Loading a truncated or damaged stored object terminates without touching memory outside of the object. Members '
     'stored completely before a cut load exactly and members after it keep their values. Damage inside one stored '
     'number, flag, vector, bit field or array member does not change any other member.',
     'inputs fault_sequences', 'all truncations, all damage within one stored member, arbitrary bytes after the class hash',
     'tests only load intact streams', 'datas/reflector_io.cpp datas/base_128.hpp datas/bincore_fwd.hpp',
     [('LoadClass, LoadDataItem', 'datas/reflector_io.cpp')],
     'fault injection into stored bytes with an independent chunk map deciding which members may differ')
prop('C13', 'A saved reflection database loads back to the same classes and enums',
     'Any set of reflected classes and enums saved to a stream, also behind other data which stays untouched, loads back '
     'with every class hash, member layout, name, alias, alias hash, description and enumerator equal, and loaded '
     'classes read and write live objects like the compiled ones. Saving the loaded database again gives the same bytes. '
     'Loading adds to the classes and enums a database has already, and a copy of it stands on its own. '
     'A stream of another kind, of a newer version or cut anywhere is refused and leaves the database as it was, other kinds '
     'and versions with distinct results.',
     'inputs configurations', 'all sets of classes and enums with every combination of optional tables, all offsets',
     'tests save two classes at the stream start', 'datas/reflector_io.cpp datas/reflector_io.hpp',
     [('ReflectorIO::Save, ReflectorIO::Load', 'datas/reflector_io.cpp')],
     'databases of random made-up classes and enums compared field by field with their source')
prop('C14', 'Reflected objects survive XML save and load in every layout',
     'An object with or without member names, saved as XML in any of the layouts, into a class node or a given node, '
     'loads back with every member equal (floats to their printed precision), from the document itself or its '
     'serialised text, whatever markup characters its strings hold. Members are stored under their name, or their hash '
     'when unnamed, in their text form. Loading by class takes the node of that class among others, and with none '
     'changes nothing; members without an XML form are skipped without disturbing the rest.',
     'inputs configurations', 'all objects, four layouts, named and unnamed classes, strings of printable text without leading spaces',
     'tests save one object in two layouts and compare', 'datas/reflector_xml.cpp datas/reflector_xml.hpp',
     [('Save, SaveV2, SaveV2a, Load, LoadV2', 'datas/reflector_xml.cpp')],
     'save/load comparison of random objects and a reference of the text of each node')
prop('C15', 'Loading hostile XML into an object changes only addressed members',
     'Loading any XML document into an object, however it names members, items, nested classes and values, never '
     'crashes or touches memory outside of the object\'s members. Only members named by a node or attribute (name, '
     'alias or hash) can change: unknown names, item indices out of range, unsupported members and unregistered '
     'classes are ignored.',
     'inputs', 'all documents over member names, hashes, aliases, indices and arbitrary values and nesting; mutated saved documents',
     'tests only load documents they saved', 'datas/reflector_xml.cpp datas/reflector.cpp',
     [('Load, LoadV2', 'datas/reflector_xml.cpp')],
     'document generator with an independent resolver of addressed members, object in guarded memory')
prop('C16', 'Concurrent log messages arrive whole, once, in order at every sink',
     'Messages logged by any number of threads at once reach every sink exactly once, each as a whole with its warning '
     'or error prefix and optional thread id, in the order each thread sent them and in the same order at every sink, '
     'with no data race even though sinks use no locks. Text is formatted as a standard stream would, whatever was '
     'logged before: other kinds, other lengths, flushes, failed pieces, throwing sinks. Colour sinks get the colour of the kind just '
     'around its message and other sinks get no colour codes.',
     'inputs schedules', 'all message mixes and interleavings; sinks registered and thread ids switched while no one is logging',
     'the test prints a few lines from three threads without looking at the output',
     'datas/master_printer.cpp datas/master_printer.hpp datas/internal/master_printer_ix.inl',
     [('FlushAll, AddPrinterFunction, operator<<', 'datas/master_printer.cpp, datas/master_printer.hpp')],
     '!runtime monitoring under TSan and ASan+UBSan: recorded sink logs parsed against what each thread sent (exactly-once, '
     'atomicity, ordering)')
prop('C17', 'A threaded queue runs every task once and returns after all are done',
     'For any number of tasks, each index below it is run exactly once, never more at a time than there are hardware '
     'threads (one when unknown), and everything tasks wrote is visible without a race when the queue returns. A slow '
     'task does not hold up the others and a throwing one does not stop the others. Queues inside of tasks and queues of '
     'several callers do not disturb each other.',
     'inputs schedules configurations', 'all task counts, durations and reported hardware thread counts',
     'tests run 3 and 30 tasks', 'datas/multi_thread.hpp', [('RunThreadedQueue', 'datas/multi_thread.hpp')],
     '!runtime monitoring under TSan and ASan+UBSan: execution counters, concurrency high-water mark and completion '
     'monitors with injected delays and faked hardware thread counts')
prop('C18', 'Splitting a path always gives back its own parts',
     'For any narrow or wide path, separators are normalised and folder, file name and extension joined are the path; the '
     'extension starts at the last dot of the file part only, never at a dot of a folder. Exploding gives the parts '
     'between separators in order. Catching a branch puts the path where the other path first walks through its first '
     'part, or else puts the file into the other path. An empty path and a path loaded over another one or a part of itself, copied or moved '
     'work alike.',
     'inputs histories', 'all paths; branch catching with parts that do not contain one another',
     'the test uses five paths without dots in folders', 'datas/fileinfo.hpp datas/string_view.hpp',
     [('FileInfo', 'datas/fileinfo.hpp')], 'independent path splitter compared with every accessor')
prop('C19', 'String views search, compare and cut like standard strings',
     'Every search, comparison, cut, copy, relation and conversion of a view over any text, also one without a '
     'terminator, gives what the standard string class gives for any needle, position and count, for every character '
     'type. Positions behind the end are refused with the standard error where the standard does so, and nothing outside '
     'of the text is read.',
     'inputs', 'all texts, needles, positions and counts; character types char, wchar_t, char16_t, char32_t',
     'string views have no tests at all', 'datas/string_view.hpp datas/internal/string_view.inl',
     [('find family, compare, substr, copy, relations', 'datas/internal/string_view.inl')],
     'comparison with std::basic_string on text in exactly sized memory')
prop('C20', 'Name hashes are the Jenkins functions for every text',
     'For any text, of any length and bytes, the name hash, its canonical flavour and the lookup3 hash with any seed give '
     'what the published algorithms give (the name hash with carries kept within each step), the same at compile time '
     'and at run time, so that hashes stored in files by other builds and tools stay valid. Hashes compare equal exactly '
     'when their values are equal, order consistently and work as keys.',
     'inputs', 'all texts and seeds',
     'static assertions check six short words', 'datas/jenkinshash.hpp datas/jenkinshash3.hpp',
     [('JenkinsHash_, JenHash_t', 'datas/jenkinshash.hpp'), ('JenkinsHash3_', 'datas/jenkinshash3.hpp')],
     'independent implementations of the published functions')
prop('C21', 'Small floats decode exactly and encode to a neighbouring code',
     'For every layout of mantissa, exponent and sign, every code decodes to exactly the number it stands for, also '
     'denormals, zeros of both signs, infinities and NaN, and encoding that number gives the code back. Any other number '
     'encodes to one of the two codes around it, with its sign, or infinity when out of range, and NaN stays NaN. Vector '
     'forms give the same as single ones in every lane, and packed vectors decode each component by itself.',
     'inputs', 'all codes of ten layouts up to 16 bits (exhaustive), all 32-bit floats (sampled)',
     'tests check five numbers of one layout', 'datas/float.hpp datas/vectors_simd.hpp',
     [('esFloat::ToFloat, FromFloat, ToVector4, FromVector4', 'datas/float.hpp')],
     'exact decoding by definition and a neighbour check of encodings')
prop('C22', 'Vector operators work component by component alike in every class',
     'For every vector class of 2, 3 and 4 components, scalar and SIMD, each operator with another vector or a single '
     'value, in plain or compound form, gives in every component what the same operator gives for plain numbers of that '
     'type and touches no other memory. Lengths, dot and cross products, normalisation, comparisons within a tolerance, '
     'conversions between classes and text agree with their definitions for the same components in every class.',
     'inputs', 'all component values whose plain result is defined; SIMD ordering claimed for uniformly ordered vectors only',
     'tests use a few small numbers in some of the operators of some of the classes',
     'datas/vectors.hpp datas/vectors_simd.hpp datas/internal/vectors_simd.inl',
     [('vector operators', 'datas/vectors.hpp, datas/vectors_simd.hpp')],
     'component by component comparison with plain numbers in every class')
prop('C23', 'Transforms compose, decompose, multiply and turn points consistently',
     'A matrix made of a rotation has its axes turned by it, with unit length and no change of position, and gives the '
     'rotation back (up to sign) for every rotation. Composed position, rotation and scale decompose to parts that '
     'compose to the same matrix, with mirroring kept. Products are those of linear algebra also when a matrix is '
     'multiplied by itself, transpositions swap rows and columns, the inverse undoes rotation and scale, and points '
     'turn by the rotation only.',
     'inputs', 'all unit quaternions with each of the four elements largest, scales of both signs within 1/600-600',
     'tests check ten fixed matrices', 'datas/matrix44.cpp datas/matrix44.hpp',
     [('Compose, Decompose, FromQuat, ToQuat, operator*=, operator-', 'datas/matrix44.cpp')],
     'double precision quaternion and matrix algebra')
prop('C24', 'Packed data formats decode to the numbers their channels stand for',
     'For every offered combination of number type and channel layout, a block of exactly the size of the format decodes, '
     'channel by channel, to what its bits stand for: integers exactly with their sign, normalised values to their '
     'quotient, floats exactly. Arrays with any stride give what single values give, in order, and nothing outside of '
     'the block is read. Combinations that are not offered and requests of the wrong kind are refused with an error.',
     'inputs configurations', 'all number types, layouts, block contents, counts and strides',
     'tests decode one block per format', 'uni/format.hpp uni/uni_format.cpp uni/internal/format_full.hpp',
     [('FormatCodec::Get, GetValue, Sample', 'uni/uni_format.cpp, uni/internal/format_full.hpp')],
     'independent bit level decoder and exactly sized blocks')
prop('C25', 'Generic model, motion and skeleton lists own, walk and refuse alike',
     'A list shown through the generic interface has the elements of the storage behind it, in order, however it is '
     'walked, and its elements live exactly as long as their owner says: once disposed, never used or disposed again. A '
     'container linked to outside memory is edited in place without growing it, never frees it and becomes independent '
     'when it grows or is copied. Requests that an object does not offer are refused with a typed error naming them. '
     'Vertex data is sampled and then scaled and moved as its descriptor says.',
     'histories inputs', 'all histories of list contents, walks and edits; all kinds of tracks and transforms',
     'tests walk one list and link one container', 'uni/list.hpp uni/list_vector.hpp uni/virtual_iterator.hpp '
     'datas/allocator_hybrid.hpp datas/deleter_hybrid.hpp uni/motion.hpp uni/skeleton.hpp uni/model.hpp uni/internal/exception.hpp '
     'uni/internal/motion.inl uni/internal/skeleton.inl uni/internal/model.inl',
     [('List, VectorList, VirtualIterator', 'uni/list.hpp'), ('es::allocator_hybrid', 'datas/allocator_hybrid.hpp')],
     'lifetime ledger of every object, model containers and exactly sized linked memory')
prop('C26', 'Pointers stored in file images lead to their targets once fixed',
     'Pointers read from a file as offsets lead, after fixing, to exactly the address offset bytes into the image, and '
     'empty ones stay empty. Fixing again changes nothing and says so, until the record of fixed pointers is cleared. '
     'Pointers can be assigned and cleared. Images of relative pointers can be moved as a whole once fixed. Threads fixing '
     'different images do not disturb each other.',
     'histories schedules inputs', 'all images, targets, histories of fixing and assigning, and concurrent threads',
     'the tests fix two pointers', 'datas/pointer.hpp', [('esPointerX86, esPointerX64', 'datas/pointer.hpp')],
     'model of slots and targets over exactly sized images')
prop('C27', 'Encoders and decoders are inverse and work on any message length',
     'A message of any length and alignment encoded and decoded with the same key, mode and vector comes back unchanged, '
     'also when the decoder is another object, and no byte outside of the message is touched. The block cipher gives the '
     'published Blowfish results in each of its modes for every key. Changing key, mode or vector takes effect at the '
     'next message. XOR encoding repeats the whole key from the first byte of each message. An empty key is refused or '
     'leaves the message as it is.',
     'inputs histories configurations', 'all keys, messages, modes, vectors and histories of changing them',
     'encoders have no tests', 'datas/encrypt/blowfish.cpp datas/encrypt/blowfish.h datas/encrypt/xorenc.hpp datas/encrypt/encryptor.hpp',
     [('BlowfishEncoder', 'datas/encrypt/blowfish.cpp'), ('XOREncoder', 'datas/encrypt/xorenc.hpp')],
     'reference cipher computed from the digits of pi and exactly sized messages')
prop('C28', 'Stored ZIP archives open as file systems with the archived bytes',
     'An archive of stored files, with or without extra fields, comments, directories, data records and ZIP64 records, '
     'lists each of its files once under its name and opens it as a stream with exactly the archived bytes, one after '
     'another, several at once, moved, or from several threads. A cut archive gives files lying wholly before the cut '
     'only, or an error. Damaged headers give an error or files within the archive, never an outside read or an endless '
     'loop. Unsupported entries are refused. ZIP structures read back as written, '
     'methods and flags by their published numbers.',
     'inputs histories schedules fault_sequences', 'all stored archives, cuts and damaged bytes; concurrent readers',
     'ZIP handling has no tests', 'datas/zip_vfs.hpp formats/ZIP.hpp formats/ZIP_istream.inl formats/ZIP_ostream.inl',
     [('ZIPVFS, ZIPVFSFile', 'datas/zip_vfs.hpp'), ('structure streams', 'formats/ZIP_istream.inl, formats/ZIP_ostream.inl')],
     'archives written by the harness compared file by file, with cuts, damage and reader threads, also under TSan')
prop('C29', 'Texture headers give the sizes and formats their fields stand for',
     'For every documented format and any dimensions, each mip takes the bytes its dimensions, bits per pixel and '
     'compression blocks need, mips lie one after another and the total is their sum; a header with any number of mips '
     'writes only into the tables it was given. Converting between the old and new kind of header keeps format, channel '
     'order, premultiplied alpha, bits per pixel and sizes; what cannot be converted is refused and left unchanged. '
     'Setting the number of mips sets and clears exactly the flags belonging to it.',
     'inputs', 'all formats, dimensions, numbers of mips (sizes claimed while the total fits 32 bits)',
     'texture headers have no run time tests', 'formats/DDS.hpp',
     [('DDS::ComputeBPP, ComputeBufferSize, FromLegacy, ToLegacy, NumMipmaps', 'formats/DDS.hpp')],
     'sizes and format tables written from the published documentation')
prop('C30', 'Compressed texture blocks decode to the pixels they stand for',
     'Each kind of compressed block decodes to the pixels of the published reference within one level (nine for the vector '
     'version of plain BC1), transparency exactly, for every pair of end colours and every index. Only the 16 pixels of '
     'the block are written, wherever the block lies in an image of exactly its size. Two channel blocks keep the order of '
     'their channels (from byte 1 of three byte pixels, byte 0 of two byte ones); the third, normal, component completes '
     'the unit vector.',
     'inputs', 'all block contents and places in images of up to 4 GB; plain BC1 is claimed in its four colour mode',
     'block decoding has no tests', 'formats/BlockDecoder.h formats/BlockDecoder.inl formats/BlockDecoderSimd.hpp',
     [('DecodeBC1Block to DecodeBC5Block', 'formats/BlockDecoder.inl')],
     'exact rational reference decoder and exactly sized images with canaries')
prop('C31', 'Swizzled texture addresses are a bijection onto the texture',
     'For any power of two dimensions, each pixel has its own address within the texture: the bits of its coordinates '
     'interleaved, x first, with the rest of the longer side above them. No address is used twice and none is left out.',
     'inputs', 'all power of two dimensions up to 8192 and all pixels',
     'address calculation has no tests', 'formats/addr_ps3.hpp', [('MortonSettings, MortonAddr', 'formats/addr_ps3.hpp')],
     'bit by bit reference address and a map of used addresses')
prop('C32', 'Scanning a folder lists each matching file below it exactly once',
     'Scanning a folder lists each regular file below it, at any depth, exactly once, as a path that opens that file, '
     'and nothing else. With filters, only files whose names contain one of them are listed. Scans accumulate until '
     'cleared. The result does not depend on the order of entries, on how the path is spelled (trailing slash, quotes) '
     'or on whether the file system tells the kinds of entries. Missing folders give nothing.',
     'inputs configurations', 'all hierarchies, names, filters and spellings (links to folders and special files not claimed)',
     'tests scan one fixed folder', 'datas/directory_scanner.cpp datas/directory_scanner.hpp',
     [('DirectoryScanner::Scan', 'datas/directory_scanner.cpp')],
     'model of the hierarchy made in a scratch folder; readdir interposed to hide kinds')
prop('C33', 'Folders are made as asked, and kinds of files are told right',
     'Making the folders of a path makes exactly the folders leading to it, with either separator, whether some exist or '
     'not, and keeps every existing file as it was. Kinds of files are told for any path: folder, file, other, or missing, '
     'whatever the modes are.',
     'inputs histories', 'all paths, orders of making, kinds of files and modes',
     'no tests for folders', 'datas/stat.hpp datas/stat_ix.inl datas/stat.cpp', [('es::mkdirs, FileType', 'datas/stat_ix.inl')],
     'model of the hierarchy compared with what is found in a scratch folder')
prop('C34', 'Text converts between UTF-8, UTF-16 and UTF-32 without loss',
     'Any text of Unicode characters, of any length and with any characters in it, zeros included, converts to wider '
     'text and back unchanged, and its wide form is the standard encoding of its characters. Malformed text is refused '
     'with an error or left out at its end, never read past its end. Lines of help built from '
     'such text keep their words.',
     'inputs', 'all texts of all Unicode characters, and malformed texts',
     'tests convert three texts', 'datas/unicode.hpp datas/tchar.hpp', [('es::ToUTF8, ToUTF1632', 'datas/unicode.hpp')],
     'independent encoder over exactly sized texts, every Unicode character swept')
prop('C35', 'Settings logs and help say all settings with their right values',
     'A log of settings lists every setting under the name users know, in order, with its present value, and after that '
     'every printed line, whole and in order, also when several threads print and when logs are made one after another. '
     'Help lists every setting with its description, the values it may have, and nested settings at their level.',
     'inputs histories schedules', 'all values, printed lines, histories of logs, with and without names and descriptions',
     'settings have no tests of their log', 'datas/settings_manager.hpp', [('SettingsManager', 'datas/settings_manager.hpp')],
     'log and help files parsed and compared with the values set and the lines printed')
prop('C36', 'Failing streams never hang readers or yield undefined values',
     'Reading from a stream that fails at any byte — cut short, reporting an error, or failed already — always ends. Items lying '
     'wholly before the failure come back exactly; after it, strings and containers are empty and variable-length numbers are '
     'zero, a string cut by it gives its characters before the failure, and the stream tells that it failed. '
     'Nothing read depends on former memory contents. Writing to a full device ends with exactly the first '
     'bytes of the image written.',
     'fault_sequences inputs', 'all sequences of items, byte orders, failing points and kinds of failure',
     'tests read from healthy streams only', 'datas/binreader_ref.hpp datas/binreader_stream.hpp datas/binwritter_ref.hpp datas/base_128.hpp',
     [('BinReaderRef_t::ReadString, ReadContainer', 'datas/binreader_ref.hpp')],
     'failing devices under the readers, an endless-fill guard and two passes with different stack contents')
prop('C37', 'Small helpers: codes, paddings, trimming, member loops, wave chunks',
     'Four character codes are the bytes of their text in memory order, for any characters. Padding leads to the next multiple '
     'and no further; powers of two and fractions of bit counts are told exactly; trimming removes exactly the blanks asked for. '
     'Member loops visit each of up to 89 members once, in order, with its position, and enumerations and classes made with '
     'them have all their members. Chunks of a wave file lead to one another up to its end, odd sizes padded, with headers, '
     'rates and block sizes as published.',
     'inputs programs', 'all codes, numbers, texts, member counts up to 89 and chunk sequences',
     'static assertions settle one value each', 'datas/supercore.hpp datas/macroLoop.hpp formats/WAVE.hpp formats/MSF.hpp formats/VAG.hpp '
     'formats/XVAG.hpp formats/FWSE.hpp datas/internal/reflector_enum.hpp datas/internal/reflector_enum_reg.hpp',
     [('CompileFourCC, GetPadding, TrimWhitespace', 'datas/supercore.hpp'), ('StaticFor', 'datas/macroLoop.hpp'),
      ('WAVEGenericHeader', 'formats/WAVE.hpp')],
     'reference computations over exactly sized inputs, every member count')
prop('C38', 'Errors name what went wrong and test checks decide what is written',
     'Errors of files, formats and versions are of their own type and name the file, the version or the magic: as text when it '
     'is letters and digits up to its first zero, else byte by byte, for magics of any size. Each test check passes exactly '
     'when the expression as written holds, compound expressions included; a failed one reports place, expression and values, '
     'and a run of cases reports how many passed and fails if any failed.',
     'inputs', 'all magics, names, versions, values and expressions',
     'the checks of the tests are never tested themselves', 'datas/except.hpp datas/unit_testing.hpp',
     [('InvalidHeaderError', 'datas/except.hpp'), ('TEST_CHECK, TEST_EQUAL, TEST_CASES', 'datas/unit_testing.hpp')],
     'values and printed reports compared with the expressions evaluated by the harness')
prop('C39', 'XML documents go to files and come back as asked for',
     'A document written to a file with any format flags, indentation and encoding and read with any parse flags gives what '
     'these flags mean; with defaults, elements, attributes and texts come back unchanged. Children are collected by name, all '
     'of them, in order. Missing, unwritable, empty and malformed files each give their own kind of error, naming the file and, '
     'when malformed, the reason and offset. Errors about nodes name them.',
     'inputs configurations', 'all documents, flags, encodings and damaged files',
     'tests parse one file', 'datas/pugiex.hpp', [('XMLFromFile, XMLToFile, XMLCollectChildren', 'datas/pugiex.hpp')],
     'document model, the XML library driven with its own constants, and damaged files')
prop('C40', 'Memory, files, folders and threads are given back, also after failures',
     'Work with files, folder scans, printing, threaded queues, reflected members as text, binary and XML, reflection databases, '
     'settings and logs, archives, XML documents, paths, generic lists and errors leaves no memory, open file, open folder or '
     'thread behind once its objects end: after plain work, after errors in damaged or missing inputs and in throwing tasks and '
     'sinks, and when memory runs out at any allocation on the way. The same work done afterwards gives the same results as '
     'before.',
     'inputs fault_sequences histories', 'all work of these kinds and every failing allocation in it',
     'tests never count resources nor let an allocation fail', 'datas/directory_scanner.cpp datas/master_printer.cpp datas/reflector.cpp '
     'datas/reflector_io.cpp datas/reflector_xml.cpp datas/zip_vfs.hpp datas/binreader.hpp datas/binwritter.hpp datas/multi_thread.hpp '
     'datas/settings_manager.hpp datas/pugiex.hpp uni/list_vector.hpp',
     [('DirectoryScanner::Scan', 'datas/directory_scanner.cpp'), ('MasterPrinterThread::FlushAll', 'datas/master_printer.cpp'),
      ('RunThreadedQueue', 'datas/multi_thread.hpp')],
     '!runtime monitoring under ASan+UBSan: allocated bytes, open descriptors and threads counted around random work, with '
     'allocation failures injected')
prop('C41', 'Python sees generic objects as they are and gets errors, not crashes',
     'Through the Python bindings, skeletons, bones, motions, tracks, vectors and matrices show exactly the values of the generic '
     'objects behind them, list items come by position and by walking, in order, enumerations give their names and values, and '
     'tracks give one sample for each time asked for. Positions out of range, unknown names, wrong types and requests the '
     'object does not offer give a Python error and change nothing. No object is used after or kept beyond its last reference: '
     'each is freed once, with the elements it owns.',
     'inputs histories', 'all generic objects, all requests and misuse of them from Python',
     'the bindings have no tests at all', 'uni/python/pylist.hpp uni/python/pyenum.hpp uni/python/pyrts.hpp uni/python/pymotion.inl '
     'uni/python/pyskeleton.inl datas/python/vectors.hpp datas/python/matrix44.hpp datas/python/reflected_enum.hpp datas/pythonex.hpp',
     [('List::Subscript, Iter, Dealloc', 'uni/python/pylist.hpp'), ('MotionTrack::GetValues', 'uni/python/pymotion.inl'),
      ('Bone::GetTM', 'uni/python/pyskeleton.inl'), ('Enum::GetAttribute', 'uni/python/pyenum.hpp')],
     'results in an embedded interpreter compared with the objects behind them; live objects, elements and counts of None '
     'compared before and after')
prop('C42', 'The 3ds Max helpers keep parameters, layers, suffixes and presets apart',
     'Each accessor of the material and map wrappers sets and gets one parameter of its own, in its own layer and with its own type, and '
     'gives back what was set last. Composite layers keep their settings and order when layers are added, copied, moved or deleted '
     'or their number changes; the last layer stays and positions out of range are refused. Node suffixes list the sorted '
     'channels, then the marks of normals, skin and morph, behind the class if given, and presets keep name, scale, axes with '
     'their signs, and extensions in order.',
     'inputs histories', 'all values, orders of calls, numbers of layers, channels, matrices and names',
     'the plugin helpers have no tests and were not even compiled', 'MAXex/MapsCore.h MAXex/Mix.h MAXex/NormalBump.h '
     'MAXex/RGBMultiply.h MAXex/VertexColor.h MAXex/PhysicalMaterial.h MAXex/CompositeTex.h MAXex/NodeSuffix.h MAXex/hk_preset.hpp',
     [('ACCFUNC, MapBase_t', 'MAXex/MapsCore.h'), ('CompositeTex::Resize, DeleteLayer', 'MAXex/CompositeTex.h'),
      ('INodeSuffixer::Generate', 'MAXex/NodeSuffix.h'), ('SaveHKPreset', 'MAXex/hk_preset.hpp')],
     'calls recorded by a stand-in for the SDK compared with a model of parameters and layers; texts compared with the expected ones')
prop('C43', 'Threads working on objects of their own do not disturb each other',
     'Readers, writers, scanners, reflected objects (as text, binary and XML), type databases, settings help, archives, documents, '
     'paths, lists, errors, codecs, matrices, ciphers, textures, hashes and enum descriptions may be used by several threads at once, '
     'each with objects and files of its own: there is no data race, also when several threads are the first to use something, '
     'and each thread gets what it would get alone. Registration of types, the sinks of the printer and the log of a settings class '
     'belong to the whole process and are set up before.',
     'schedules histories inputs', 'all mixtures of work, numbers of threads and first uses in fresh processes',
     'the tests run in one thread, apart from the queue', 'datas/internal/reflector_enum_reg.hpp datas/unicode.hpp datas/pugiex.hpp '
     'datas/reflector.cpp datas/reflector_io.cpp datas/reflector_xml.cpp datas/zip_vfs.hpp datas/directory_scanner.cpp uni/uni_format.cpp',
     [('ReflectedEnum::ReflectedEnum', 'datas/internal/reflector_enum_reg.hpp'), ('FormatCodec::Get', 'uni/uni_format.cpp'),
      ('XMLFromFile', 'datas/pugiex.hpp'), ('ToUTF1632, ToUTF8', 'datas/unicode.hpp')],
     'TSan over eighteen kinds of work in two to six threads, results compared with the same work alone')
